----------------------------- MODULE WordGraphMC -----------------------------
(* All graphs over a few states built arc by arc, with every sequence of       *)
(* operations up to a bound: checks the path-set definitions against each      *)
(* other and generates one implementation test per transition.                 *)
EXTENDS WordGraph, Json
CONSTANTS MaxState, MaxArcs, MaxOps, Emit
Scores == {-2, 1}
Inits == {-3}
Ks == {0, 3, -2}
VARIABLES hist, nops
Op(r) == hist' = Append(hist, r)
W(i) == <<"w" \o ToString(i)>>
MCInit == g = EmptyGraph /\ hist = <<>> /\ nops = 0
Building == nops = 0
CanonFlags(k) == [i \in Ids(g) |-> OnPath(g, i) # {} /\ k # -2 /\
     2 * MaxOf({Total(g, q) : q \in OnPath(g, i)}) < 2 * MaxOf({Total(g, q) : q \in Complete(g)}) - k]
Reach(p) == p = 0 \/ \E i \in Ids(g) : g.arcs[i].s = p
UsedSeq == LET U == {0} \cup UNION {{g.arcs[i].p, g.arcs[i].s} : i \in UsefulArcs(g)} IN SetToSortSeq(U, <)
NewId(s) == (CHOOSE n \in 1..Len(UsedSeq) : UsedSeq[n] = s) - 1
CanonUseful ==
  LET keep == SelectSeq([i \in Ids(g) |-> i], LAMBDA i : i \in UsefulArcs(g))
  IN [arcs |-> [n \in 1..Len(keep) |-> [g.arcs[keep[n]] EXCEPT !.p = NewId(@), !.s = NewId(@)]],
      fin |-> IF keep = <<>> THEN {} ELSE {NewId(s) : s \in {f \in g.fin : \E i \in UsefulArcs(g) : g.arcs[i].s = f}},
      ns |-> IF keep = <<>> THEN 0 ELSE Len(UsedSeq)]
MCNext ==
  \/ /\ Building /\ nops' = 0
     /\ \/ /\ Len(g.arcs) < MaxArcs
           /\ \E p \in 0..(MaxState - 1), s \in 1..MaxState, sc \in Scores :
                /\ p < s /\ p \notin g.fin /\ Reach(p)
                /\ ~\E i \in Ids(g) : g.arcs[i].p = s    \* predecessors first: arcs stay topologically ordered
                /\ s \notin g.fin
                /\ LET i == Len(g.arcs) IN
                   AddArc(p, s, W(i), sc, <<sc, 1>>) /\ Op([op |-> "arc", p |-> p, s |-> s, w |-> W(i), sc |-> sc, c |-> <<sc, 1>>])
        \/ \E s \in 1..MaxState : /\ s \notin g.fin /\ \E i \in Ids(g) : g.arcs[i].s = s
                                  /\ ~\E i \in Ids(g) : g.arcs[i].p = s
                                  /\ AddFinal(s) /\ Op([op |-> "final", s |-> s])
  \/ /\ g.fin # {} /\ nops < MaxOps /\ nops' = nops + 1
     /\ \/ \E v \in Inits : v # g.init /\ SetInit(v) /\ Op([op |-> "init", v |-> v])
        \/ \E w \in {<<1, 0>>, <<-1, 1>>} : SetWeights(w) /\ Op([op |-> "setw", wts |-> w])
        \/ Unprune /\ Op([op |-> "prune", k |-> -1])
        \/ \E k \in Ks : Prune(k, CanonFlags(k)) /\ Op([op |-> "prune", k |-> k])
        \/ Topo(g.arcs) /\ Op([op |-> "topo"])
        \/ \E u \in BOOLEAN : SaveLoad(u) /\ Op([op |-> "saveload", u |-> u, fresh |-> u])
        \/ Useful(CanonUseful.arcs, CanonUseful.fin, CanonUseful.ns) /\ Op([op |-> "useful"])
MCSpec == MCInit /\ [][MCNext]_<<g, hist, nops>>
View == <<g, nops>>
EmitBehaviour == (Emit /\ nops' > 0) => PrintT("BEH " \o ToJson(hist'))
PathVals(G, init) == {<<Words(G, q), PathScore(G, q, <<>>) + init, Comps(G, q)>> : q \in Complete(G)}
(* ------------------------------ design theorems ------------------------------ *)
Ordered == Topological(g.arcs)
BestIsDP == \A s \in 0..(g.ns - 1) :
  LET R == {Prev(g, s)[f] : f \in g.fin} \ {None} IN BestScore(g, s, {}, <<>>) = IF R = {} THEN None ELSE MaxOf(R)
RestIsDP == \A s \in 0..(g.ns - 1) :
  LET P == PathsFrom(g, Live(g), s) IN Rest(g)[s] = IF P = {} THEN None ELSE g.init + MaxOf({PathScore(g, q, <<>>) : q \in P})
SaveKeepsPaths == \A u \in BOOLEAN : PathVals(Saved(g, u), 0) = PathVals(g, 0)
UsefulKeepsPaths == PathVals([g EXCEPT !.arcs = CanonUseful.arcs, !.fin = CanonUseful.fin, !.ns = CanonUseful.ns], g.init) = PathVals(g, g.init)
(* pruning never loses the best path, and keeps every path within the margin    *)
PruneKeepsBest == (\A i \in Ids(g) : ~g.arcs[i].x) => \A k \in Ks :
  LET G == [g EXCEPT !.arcs = [i \in Ids(g) |-> [g.arcs[i] EXCEPT !.x = CanonFlags(k)[i]]]]
  IN /\ BestScore(G, 0, {}, <<>>) = BestScore(g, 0, {}, <<>>)
     /\ k # -2 => \A q \in Complete(g) : 2 * Total(g, q) >= 2 * BestScore(g, 0, {}, <<>>) - k => q \in Complete(G)
     /\ k = -2 => Complete(G) = Complete(g)
==============================================================================
