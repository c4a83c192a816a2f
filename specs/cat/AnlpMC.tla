------------------------------- MODULE AnlpMC -------------------------------
(* Prefixes are typed, extended, shortened and edited at will.  The processor keeps the columns of its tables    *)
(* that stay valid; each column is tagged by the word it was computed for and by whether that word was then the   *)
(* unfinished last one.  Always: the tags are those of a computation from scratch for the current prefix.          *)
(* On trees, and on all graphs when only the error model counts, the scores are the true optima.                  *)
EXTENDS Anlp, Json
CONSTANTS Vocab, MaxLen, Kmax, Graphs, Emit
VARIABLES gi, y, fin, tags, hist
vars == <<gi, y, fin, tags, hist>>
A == <<97>>  B == <<98>>  AB == <<97, 98>>
Arc(p, s, w, sc) == [p |-> p, s |-> s, w |-> w, sc |-> sc]
Graph(k) ==
  CASE k = 1 -> [arcs |-> <<Arc(0, 1, <<A>>, -3), Arc(1, 2, <<B, AB>>, -10), Arc(1, 3, <<AB>>, -29)>>, fin |-> {2, 3}, init |-> -1, tree |-> TRUE]
    [] k = 2 -> [arcs |-> <<Arc(0, 1, <<A>>, -3), Arc(0, 1, <<B, A>>, -8), Arc(1, 2, <<AB>>, -20), Arc(0, 2, <<AB, B>>, -47), Arc(2, 3, <<>>, -101), Arc(2, 3, <<A>>, -217)>>, fin |-> {3}, init |-> 0, tree |-> FALSE]
    [] k = 3 -> [arcs |-> <<Arc(0, 1, <<AB, AB>>, -50), Arc(0, 2, <<A, B, A>>, -7)>>, fin |-> {1, 2}, init |-> -5, tree |-> TRUE]
Cost == [h |-> 0, i |-> 3, s |-> 4, d |-> 5]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Typed(q, f) == FoldLeft(LAMBDA r, k : r \o (IF k = 1 THEN <<>> ELSE <<32>>) \o q[k], <<>>, [k \in DOMAIN q |-> k]) \o (IF f /\ q # <<>> THEN <<32>> ELSE <<>>)
Tags(q, f) == [k \in DOMAIN q |-> <<q[k], k = Len(q) /\ ~f>>]
GraphOp(k) == [op |-> "graph", arcs |-> Graph(k).arcs, fin |-> SetToSeq(Graph(k).fin), init |-> Graph(k).init,
               h |-> Cost.h, i |-> Cost.i, s |-> Cost.s, d |-> Cost.d, wgw |-> 2, ecw |-> 37]
Init == gi \in Graphs /\ y = <<>> /\ fin = TRUE /\ tags = <<>> /\ hist = <<GraphOp(gi)>>
Same(q, f, k) == k <= Len(y) /\ k <= Len(q) /\ y[k] = q[k] /\ ((k = Len(y)) = (k = Len(q))) /\ (k = Len(y) => fin = f)
Valid(q, f) == Cardinality({k \in 1..Len(q) : \A i \in 1..k : Same(q, f, i)})
Correct(q, f) == /\ y' = q /\ fin' = f
                 /\ tags' = SubSeq(tags, 1, Valid(q, f)) \o SubSeq(Tags(q, f), Valid(q, f) + 1, Len(q))
                 /\ hist' = Append(hist, [op |-> "cor", p |-> Typed(q, f), n |-> 1 + (Len(hist) % 4), rej |-> <<>>])
                 /\ UNCHANGED gi
Next == \E q \in Seqs(Vocab, MaxLen), f \in BOOLEAN : (q = <<>> => f) /\ Len(hist) <= Kmax /\ Correct(q, f)
MCSpec == Init /\ [][Next]_vars
View == <<gi, y, fin, tags>>
FromScratch == tags = Tags(y, fin)
(* brute force over paths *)
RECURSIVE PathsTo(_, _)
PathsTo(g, s) == (IF s = 0 THEN {<<g.init, <<>>>>} ELSE {}) \cup
  UNION {{<<q[1] + g.arcs[k].sc, q[2] \o g.arcs[k].w>> : q \in PathsTo(g, g.arcs[k].p)} : k \in {n \in DOMAIN g.arcs : g.arcs[n].s = s}}
MaxOf(S) == CHOOSE v \in S : \A u \in S : u <= v
Opt(g, wgw, ecw, s, q, f) == MaxOf({wgw * p[1] - ecw * Corner(WordTable(Cost, p[2], q, f)) : p \in PathsTo(g, s)})
Optimal == LET g == Graph(gi) IN
  /\ (g.tree => \A s \in States(g) : Last2(Model(g, Cost, 2, 37, y, fin).best[s]) = Opt(g, 2, 37, s, y, fin))
  /\ \A s \in States(g) : Last2(Model(g, Cost, 0, 37, y, fin).best[s]) = Opt(g, 0, 37, s, y, fin)
(* a column depends on the tags up to it only *)
ColumnsByTag == LET g == Graph(gi) m == Model(g, Cost, 2, 37, y, fin) IN
  \A j \in 0..Len(y) - 1 : LET q == SubSeq(y, 1, j) m2 == Model(g, Cost, 2, 37, q, TRUE) IN
    \A s \in States(g) : m2.row[s] = SubSeq(m.row[s], 1, j + 1) /\ m2.best[s] = SubSeq(m.best[s], 1, j + 1)
(* every suggestion extends the prefix *)
Extends == LET g == Graph(gi) m == Model(g, Cost, 2, 37, y, fin) r == Rests(g) IN
  \A s \in Involved(g) : LET T == StateTexts(g, Cost, m, y, fin, r, {}, s) IN T # {} /\
    \A t \in T : Len(t) >= Len(y) /\ \A k \in 1..Len(y) : IF k = Len(y) /\ ~fin THEN IsPrefix(y[k], t[k]) ELSE y[k] = t[k]
EmitBehaviour == Emit => PrintT("BEH " \o ToJson(hist'))
=============================================================================
