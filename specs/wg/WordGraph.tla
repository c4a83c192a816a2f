------------------------------ MODULE WordGraph ------------------------------
(* A word graph: an ordered sequence of arcs between numbered states, a set of *)
(* final states, an initial-state score and score-component weights. Every     *)
(* algorithm is specified by the set of complete paths it ranges over.          *)
(*   arc = [p, s : state, w : words, sc : score, c : score components, x : pruned] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLE g  \* [arcs, fin, init, ns, wts]
None == -1000000000  \* score of "no path"
EmptyGraph == [arcs |-> <<>>, fin |-> {}, init |-> 0, ns |-> 0, wts |-> <<>>]

Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Ids(G) == 1..Len(G.arcs)
Live(G) == {i \in Ids(G) : ~G.arcs[i].x}
Proj(a) == [p |-> a.p, s |-> a.s, w |-> a.w, sc |-> a.sc]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])

(* Arc score under alternative weights (<<>>: the stored score)                 *)
AltOk(G, alt) == alt # <<>> /\ Len(alt) = Len(G.wts) /\ \A i \in Ids(G) : Len(G.arcs[i].c) = Len(alt)
ArcScore(G, i, alt) == IF AltOk(G, alt) THEN Dot(alt, G.arcs[i].c) ELSE G.arcs[i].sc

(* Paths (sequences of arc ids) inside the arc set A from state s to a final state *)
RECURSIVE PathsFrom(_, _, _)
PathsFrom(G, A, s) ==
  (IF s \in G.fin THEN {<<>>} ELSE {})
  \cup UNION {{<<i>> \o q : q \in PathsFrom(G, A, G.arcs[i].s)} : i \in {j \in A : G.arcs[j].p = s}}
PathScore(G, q, alt) == SumSeq([i \in 1..Len(q) |-> ArcScore(G, q[i], alt)])
Start(G, s) == IF s = 0 THEN G.init ELSE 0
Complete(G) == PathsFrom(G, Live(G), 0)
Total(G, q) == G.init + PathScore(G, q, <<>>)
BestScore(G, s, excl, alt) ==
  LET P == PathsFrom(G, Live(G) \ excl, s)
  IN IF P = {} THEN None ELSE Start(G, s) + MaxOf({PathScore(G, q, alt) : q \in P})

(* Best score from idx to every state / from every state to the end, arcs in topological order *)
Prev(G, idx) ==
  FoldLeft(LAMBDA f, i : LET a == G.arcs[i] IN
             IF a.x \/ f[a.p] = None THEN f ELSE [f EXCEPT ![a.s] = Max2(@, f[a.p] + a.sc)],
           [s \in 0..(G.ns - 1) |-> IF s = idx THEN Start(G, idx) ELSE None], [i \in 1..Len(G.arcs) |-> i])
Rest(G) ==
  FoldLeft(LAMBDA f, i : LET a == G.arcs[i] IN
             IF a.x \/ f[a.s] = None THEN f ELSE [f EXCEPT ![a.p] = Max2(@, f[a.s] + a.sc)],
           [s \in 0..(G.ns - 1) |-> IF s \in G.fin THEN G.init ELSE None], Reverse([i \in 1..Len(G.arcs) |-> i]))

Topological(arcs) == \A i, j \in 1..Len(arcs) : arcs[i].p = arcs[j].s => j < i
Perm(A, B) == Len(A) = Len(B) /\ \A x \in {A[i] : i \in 1..Len(A)} \cup {B[i] : i \in 1..Len(B)} :
                Cardinality({i \in 1..Len(A) : A[i] = x}) = Cardinality({i \in 1..Len(B) : B[i] = x})

(* ------------------------------- updates ------------------------------------ *)
AddArc(p, s, w, sc, c) ==
  g' = [g EXCEPT !.arcs = Append(@, [p |-> p, s |-> s, w |-> w, sc |-> sc, c |-> c, x |-> FALSE]),
                 !.ns = Max2(@, Max2(p, s) + 1)]
AddFinal(s) == g' = [g EXCEPT !.fin = @ \cup {s}]
SetInit(v) == g' = [g EXCEPT !.init = v]
SetWeights(w) ==
  g' = [g EXCEPT !.wts = w,
                 !.arcs = [i \in Ids(g) |-> IF g.arcs[i].c # <<>> /\ Len(g.arcs[i].c) = Len(w)
                                            THEN [g.arcs[i] EXCEPT !.sc = Dot(w, g.arcs[i].c)] ELSE g.arcs[i]]]
Unprune == g' = [g EXCEPT !.arcs = [i \in Ids(g) |-> [g.arcs[i] EXCEPT !.x = FALSE]]]
(* Pruning keeps exactly those arcs that lie on a complete path whose score is *)
(* within the margin of the best (k is twice the margin; -2 keeps all of them). *)
(* Arcs on no complete path may be kept or not (flags = the resulting marks).   *)
OnPath(G, i) == {q \in Complete(G) : \E j \in 1..Len(q) : q[j] = i}
PruneOk(G, k, flags) ==
  LET T == {<<Total(G, q), {q[j] : j \in 1..Len(q)}>> : q \in Complete(G)}
      best == IF T = {} THEN None ELSE MaxOf({t[1] : t \in T})
  IN \A i \in Ids(G) : LET on == {t[1] : t \in {u \in T : i \in u[2]}} IN
       on # {} => (flags[i] = (k # -2 /\ 2 * MaxOf(on) < 2 * best - k))
Prune(k, flags) ==
  /\ \A i \in Ids(g) : ~g.arcs[i].x
  /\ PruneOk(g, k, flags)
  /\ g' = [g EXCEPT !.arcs = [i \in Ids(g) |-> [g.arcs[i] EXCEPT !.x = flags[i]]]]
(* Topological reordering: any topological permutation of the arcs             *)
Topo(arcs) ==
  /\ Perm(g.arcs, arcs) /\ Topological(arcs)
  /\ g' = [g EXCEPT !.arcs = arcs]
(* States on no path from the initial to a final state disappear, the others   *)
(* are renumbered from 0 (the initial state stays 0); arcs keep their order.    *)
UsefulArcs(G) == UNION {{q[j] : j \in 1..Len(q)} : q \in Complete(G)}
Useful(arcs, fin, ns) ==
  LET ua == UsefulArcs(g)
      keep == SelectSeq([i \in Ids(g) |-> i], LAMBDA i : i \in ua)
      ends == {<<g.arcs[keep[n]].p, arcs[n].p>> : n \in 1..Len(keep)} \cup {<<g.arcs[keep[n]].s, arcs[n].s>> : n \in 1..Len(keep)}
  IN /\ Len(arcs) = Len(keep)
     /\ \A n \in 1..Len(keep) : arcs[n] = [g.arcs[keep[n]] EXCEPT !.p = arcs[n].p, !.s = arcs[n].s]
     /\ \A a \in ends, b \in ends : (a[1] = b[1]) = (a[2] = b[2])
     /\ {a[2] : a \in ends} = 0..(ns - 1)
     /\ keep # <<>> => <<0, 0>> \in ends
     /\ fin = {a[2] : a \in {b \in ends : b[1] \in g.fin}}
     /\ g' = [g EXCEPT !.arcs = arcs, !.fin = fin, !.ns = ns]
(* What a file holds: live (and, on request, useful) arcs and the final states *)
(* with an incoming live arc; not the initial-state score.                      *)
Saved(G, useful) ==
  LET A == SelectSeq(G.arcs, LAMBDA a : ~a.x)
      ua == UsefulArcs(G)
      keep == SelectSeq([i \in Ids(G) |-> i], LAMBDA i : i \in ua)
      B == IF useful THEN [n \in 1..Len(keep) |-> G.arcs[keep[n]]] ELSE A
  IN [arcs |-> B, fin |-> {f \in G.fin : \E i \in Live(G) : G.arcs[i].s = f}, init |-> 0,
      ns |-> IF B = <<>> THEN 0 ELSE 1 + MaxOf({B[i].s : i \in 1..Len(B)} \cup {B[i].p : i \in 1..Len(B)}), wts |-> G.wts]
SaveLoad(useful) == g' = Saved(g, useful)
LoadRaw(arcs, fin, wts) ==
  g' = [arcs |-> [i \in 1..Len(arcs) |-> [p |-> arcs[i].p, s |-> arcs[i].s, w |-> arcs[i].w, sc |-> arcs[i].sc, c |-> arcs[i].c, x |-> FALSE]],
        fin |-> fin, init |-> 0, wts |-> wts,
        ns |-> IF arcs = <<>> THEN 0 ELSE 1 + MaxOf({arcs[i].s : i \in 1..Len(arcs)} \cup {arcs[i].p : i \in 1..Len(arcs)})]
Clear == g' = EmptyGraph

(* ------------------------------- queries ------------------------------------ *)
PathVal(G, q) == [j \in 1..Len(q) |-> Proj(G.arcs[q[j]])]
BestOk(G, idx, excl, alt, sc, path) ==
  LET P == PathsFrom(G, Live(G) \ excl, idx)
  IN IF P = {} THEN sc = None /\ path = <<>>
     ELSE LET b == MaxOf({PathScore(G, q, alt) : q \in P})
          IN /\ sc = Start(G, idx) + b
             /\ \E q \in P : PathScore(G, q, alt) = b /\ PathVal(G, q) = path
Words(G, q) == FlattenSeq([j \in 1..Len(q) |-> G.arcs[q[j]].w])
Comps(G, q) ==
  IF q = <<>> \/ G.arcs[q[1]].c = <<>> THEN <<>>
  ELSE [k \in 1..Len(G.arcs[q[1]].c) |-> SumSeq([j \in 1..Len(q) |-> G.arcs[q[j]].c[k]])]
(* The n best complete paths, best first; paths with equal scores in any order. *)
NBestOk(G, n, res) ==
  LET P == Complete(G)
      val(q) == [sc |-> Total(G, q), w |-> Words(G, q), path |-> PathVal(G, q), c |-> Comps(G, q)]
      vals == {val(q) : q \in P}
      got == {res[i] : i \in 1..Len(res)}
      m == IF n < Cardinality(P) THEN n ELSE Cardinality(P)
      better == {q \in P : Total(G, q) > res[m].sc}
  IN /\ Len(res) = m
     /\ \A i \in 1..(m - 1) : res[i].sc >= res[i + 1].sc
     /\ got \subseteq vals
     /\ m > 0 => Cardinality({i \in 1..m : res[i].sc > res[m].sc}) = Cardinality(better)
     /\ IF Cardinality(vals) = Cardinality(P) THEN Cardinality(got) = m   \* all paths differ in value
        ELSE /\ \A i \in 1..m : Cardinality({j \in 1..m : res[j] = res[i]}) <= Cardinality({q \in P : val(q) = res[i]})
             /\ m > 0 => \A q \in better : \E i \in 1..m : res[i] = val(q)
==============================================================================
