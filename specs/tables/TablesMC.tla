------------------------------ MODULE TablesMC ------------------------------
(* Laws of the tables and programs, and the ring that implements the matrix of expected values. *)
EXTENDS Tables, TLC, Json
CONSTANTS Ks, Xs, Vs, Ns, Maxes, Gen, MaxLen
VARIABLES t, m, ring, disk, hist
vars == <<t, m, ring, disk, hist>>
Keys == {<<k>> : k \in Ks}

(* The ring: slots 0..max-1 filled in turn; the file holds values by slot, and the mapping. *)
EmptyRing(x) == [max |-> x, ptr |-> 0, np |-> <<>>, nn |-> <<>>, cells |-> <<>>]
Slot(r, n) == IF r.max < 0 THEN n ELSE r.nn[n]
Mapped(r, n) == r.max < 0 \/ n \in DOMAIN r.nn
RMap(r, n) ==
  IF Mapped(r, n) THEN r
  ELSE LET s == r.ptr
           old == s \in DOMAIN r.np
           nn1 == IF old THEN [x \in DOMAIN r.nn \ {r.np[s]} |-> r.nn[x]] ELSE r.nn
           c1 == IF old THEN [p \in {q \in DOMAIN r.cells : q[1] # s} |-> r.cells[p]] ELSE r.cells
       IN [r EXCEPT !.ptr = IF s + 1 >= r.max THEN 0 ELSE s + 1, !.np = Put(@, s, n), !.nn = Put(nn1, n, s), !.cells = c1]
RSet(r, n, c, v) == IF r.max = 0 THEN r ELSE LET a == RMap(r, n) IN [a EXCEPT !.cells = Put(@, <<Slot(a, n), c>>, v)]
RGet(r, n, c) == IF Mapped(r, n) /\ <<Slot(r, n), c>> \in DOMAIN r.cells THEN r.cells[<<Slot(r, n), c>>] ELSE Invalid
RPrint(r) == [cells |-> r.cells, ms |-> IF r.max < 0 THEN <<>> ELSE <<[max |-> r.max, ptr |-> r.ptr, np |-> r.np]>>]
RLoad(f) == IF f.ms = <<>> THEN [EmptyRing(-1) EXCEPT !.cells = f.cells]
            ELSE LET s == f.ms[1] IN [max |-> s.max, ptr |-> s.ptr, np |-> s.np, cells |-> f.cells,
                                      nn |-> [n \in Range(s.np) |-> CHOOSE p \in DOMAIN s.np : s.np[p] = n]]

Init == /\ t = EmptyTab /\ disk = <<>> /\ hist = <<>>
        /\ \E x \in Maxes : m = EmptyMat(x) /\ ring = EmptyRing(x)
Log(e) == hist' = IF Gen THEN Append(hist, e) ELSE <<>>
TabStep == /\ ~Gen /\ m = EmptyMat(-1) /\ disk = <<>> /\ UNCHANGED <<m, ring, disk, hist>>
           /\ \E k \in Keys, v \in Vs : t' = SetDen(t, k, v) \/ \E x \in Xs : t' = SetNum(t, k, x, v)
E1(o, n, c, v) == [o |-> "mat", op |-> o, n |-> n, c |-> c, v |-> v]
MatStep == /\ t = EmptyTab /\ UNCHANGED t
           /\ \/ \E n \in Ns, v \in Vs : /\ m' = PutCell(m, n, <<0, 0>>, v) /\ ring' = RSet(ring, n, <<0, 0>>, v)
                                         /\ UNCHANGED disk /\ Log(E1("set", n, <<0, 0>>, v))
              \/ \E x \in Maxes : /\ m' = EmptyMat(x) /\ ring' = EmptyRing(x) /\ UNCHANGED disk
                                  /\ Log([o |-> "mat", op |-> "max", m |-> x])
              \/ /\ disk' = <<[m |-> m, f |-> RPrint(ring)]>> /\ UNCHANGED <<m, ring>> /\ Log([o |-> "mat", op |-> "print", f |-> "p"])
              \/ /\ disk # <<>> /\ m' = disk[1].m /\ ring' = RLoad(disk[1].f) /\ UNCHANGED disk
                 /\ Log([o |-> "mat", op |-> "load", f |-> "p"])
Next == Len(hist) < MaxLen /\ (TabStep \/ MatStep)
Spec == Init /\ [][Next]_vars
Emit == Gen /\ Len(hist') = MaxLen => PrintT("BEH " \o ToJson(hist'))

Refines == /\ \A n \in Ns : Cell(m, n, <<0, 0>>) = RGet(ring, n, <<0, 0>>)
           /\ m.max = ring.max
           /\ m.max >= 0 => Len(m.order) <= m.max /\ Range(m.order) = DOMAIN ring.nn /\ Cardinality(Range(ring.nn)) = Cardinality(DOMAIN ring.nn)
Restored == LET u == TabOf(RowsOf(t)) IN
  /\ \A k \in Keys, x \in Xs : Num(u, k, x) = Num(t, k, x)
  /\ \A k \in Keys : (\E x \in Xs : Num(t, k, x).found) => Den(u, k).v = Den(t, k).v
  /\ RowsOf(u) = RowsOf(t)
\* Merging chunks gives the counts of the whole corpus, however the sentence pairs are spread over chunks.
Counts == {[k |-> k, x |-> x] : k \in Keys, x \in Xs}
FileOf(bag) == LET keys == {c.k : c \in {d \in Counts : bag[d] > 0}} IN
  SetToSorted({[k |-> c.k, x |-> c.x, n |-> bag[c], d |-> SumOf({<<e, bag[e]>> : e \in {d \in Counts : d.k = c.k}})] : c \in {d \in Counts : bag[d] > 0}})
Bags == [Counts -> 0..1]
Add(a, b) == [c \in Counts |-> a[c] + b[c]]
MergeLaw == \A a, b \in Bags : MergeOf(<<FileOf(a), FileOf(b)>>) = FileOf(Add(a, b)) /\ MergeOf(<<FileOf(a)>>) = FileOf(a)
ASSUME Gen \/ MergeLaw
Inv == Refines /\ Restored
=============================================================================
