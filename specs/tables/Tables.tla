------------------------------- MODULE Tables -------------------------------
(* Tables of expected counts of the incremental alignment models: lexical tables (in memory and   *)
(* in LevelDB), HMM and IBM 2 alignment tables, the programs that sort, merge, filter, prune and  *)
(* convert their files, and the matrices of expected values of each training pair.                 *)
(* A table maps <<key, item>> to a numerator and key to a denominator. A key is a sequence of      *)
(* numbers (one word, or positions and lengths), an item a number. Values are opaque; 0 is 0.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

EmptyTab == [num |-> <<>>, den |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetNum(t, k, x, v) == [t EXCEPT !.num = Put(@, <<k, x>>, v)]
SetDen(t, k, v) == [t EXCEPT !.den = Put(@, k, v)]
SetBoth(t, k, x, v, d) == SetDen(SetNum(t, k, x, v), k, d)
Num(t, k, x) == IF <<k, x>> \in DOMAIN t.num THEN [found |-> TRUE, v |-> t.num[<<k, x>>]] ELSE [found |-> FALSE, v |-> 0]
Den(t, k) == IF k \in DOMAIN t.den THEN [found |-> TRUE, v |-> t.den[k]] ELSE [found |-> FALSE, v |-> 0]
TransOf(t, x) == {p[1] : p \in {q \in DOMAIN t.num : q[2] = x}}
\* What a file of the table holds: a record for each pair, with the denominator of its key.
RowsOf(t) == {[k |-> p[1], x |-> p[2], n |-> t.num[p], d |-> Den(t, p[1]).v] : p \in DOMAIN t.num}
\* The table read from a file.
TabOf(rows) == [num |-> [p \in {<<r.k, r.x>> : r \in rows} |-> (CHOOSE r \in rows : r.k = p[1] /\ r.x = p[2]).n],
                den |-> [k \in {r.k : r \in rows} |-> (CHOOSE r \in rows : r.k = k).d]]

(* ---- programs; files are sequences of records ---- *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ SeqLess(Tail(a), Tail(b))))
RowLess(a, b) == SeqLess(a.k, b.k) \/ (a.k = b.k /\ a.x < b.x)
Sorted(s) == \A i \in 1..Len(s) - 1 : ~RowLess(s[i + 1], s[i])
Bag(s) == [r \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = r})]
IsSortOf(out, in) == Sorted(out) /\ Len(out) = Len(in) /\ Bag(out) = Bag(in)
SetToSorted(S) == SetToSortSeq(S, RowLess)
\* Counts of several chunks: numerators add up over the chunks that have the pair, denominators over those that have the key.
RowIn(f, k, x) == {r \in Range(f) : r.k = k /\ r.x = x}
SumOf(S) == FoldSet(LAMBDA p, a : p[2] + a, 0, S)
MergeOf(fs) ==
  LET all == UNION {Range(fs[i]) : i \in DOMAIN fs}
      pairs == {<<r.k, r.x>> : r \in all}
      NumOf(k, x) == SumOf({<<i, (CHOOSE r \in RowIn(fs[i], k, x) : TRUE).n>> : i \in {j \in DOMAIN fs : RowIn(fs[j], k, x) # {}}})
      DenOf(k) == SumOf({<<i, (CHOOSE r \in Range(fs[i]) : r.k = k).d>> : i \in {j \in DOMAIN fs : \E r \in Range(fs[j]) : r.k = k}})
  IN SetToSorted({[k |-> p[1], x |-> p[2], n |-> NumOf(p[1], p[2]), d |-> DenOf(p[1])] : p \in pairs})
\* The records of a table listed in the filter information, both in the order of the table.
FilterOf(in, info) == SelectSeq(in, LAMBDA r : <<r.k, r.x>> \in Range(info))
\* Pruning keeps for each key at most n items (0: any number), the most frequent ones, each with at
\* least c/1000 of the numerators of the key, and renormalises. c is never a ratio of counts.
KeyRows(in, k) == {r \in Range(in) : r.k = k}
SumN(S) == SumOf({<<r, r.n>> : r \in S})
IsPruneOf(out, in, n, c) ==
  /\ \A i, j \in DOMAIN out : i # j => <<out[i].k, out[i].x>> # <<out[j].k, out[j].x>>
  /\ \A i \in DOMAIN out : \E r \in Range(in) : r.k = out[i].k /\ r.x = out[i].x /\ r.n = out[i].n
  /\ \A k \in {r.k : r \in Range(in)} :
       LET all == KeyRows(in, k)
           kept == KeyRows(out, k)
           good == {r \in all : 1000 * r.n >= c * SumN(all)}
       IN /\ Cardinality(kept) = IF n > 0 /\ n < Cardinality(good) THEN n ELSE Cardinality(good)
          /\ \A r \in kept : 1000 * r.n >= c * SumN(all) /\ r.d = SumN(kept)
          /\ \A r \in all, q \in kept : r.n > q.n => \E z \in kept : z.x = r.x

(* ---- matrix of expected values ---- *)
(* max: -1 unlimited, 0 disabled, else the number of training pairs that are kept; the pair kept     *)
(* for longest gives way to a new one. order: pairs in order of arrival. cells: <<n, position>> ->   *)
(* value, where defined. dims: room asked for with init, as <<largest j, largest i>>.                 *)
EmptyMat(m) == [max |-> m, order |-> <<>>, cells |-> <<>>, dims |-> <<>>]
Drop(m, n) == [m EXCEPT !.cells = [p \in {q \in DOMAIN @ : q[1] # n} |-> @[p]], !.dims = [p \in DOMAIN @ \ {n} |-> @[p]]]
Arrive(m, n) ==
  IF m.max = 0 \/ n \in Range(m.order) THEN m
  ELSE IF m.max < 0 \/ Len(m.order) < m.max THEN [m EXCEPT !.order = Append(@, n)]
  ELSE [Drop(m, m.order[1]) EXCEPT !.order = Append(Tail(@), n)]
\* Room for positions up to d: values survive when the pair already has that much room.
Room(m, n, d) ==
  IF m.max = 0 THEN m
  ELSE LET a == Arrive(m, n)
           fits == n \in DOMAIN a.dims /\ a.dims[n][1] >= d[1] /\ a.dims[n][2] >= d[2]
       IN IF fits THEN a ELSE [Drop(a, n) EXCEPT !.dims = Put(@, n, d)]
PutCell(m, n, c, v) == IF m.max = 0 THEN m ELSE [Arrive(m, n) EXCEPT !.cells = Put(@, <<n, c>>, v)]
PutAll(m, n, cs) == FoldLeft(LAMBDA a, e : PutCell(a, n, e.c, e.v), m, cs)
Invalid == -1
Cell(m, n, c) == IF <<n, c>> \in DOMAIN m.cells THEN m.cells[<<n, c>>] ELSE Invalid
Forget(m) == [m EXCEPT !.cells = <<>>]
=============================================================================
