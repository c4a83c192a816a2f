--------------------------- MODULE WordGraphTrace ---------------------------
(* Every recorded history of a real word graph is a behaviour of WordGraph.    *)
EXTENDS WordGraph, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l
Ev == Traces[h][l]
Rng(q) == {q[i] : i \in 1..Len(q)}
Plus1(q) == {x + 1 : x \in Rng(q)}
StateIs(G, e) == /\ e.arcs = G.arcs /\ Rng(e.fin) = G.fin /\ e.init = G.init /\ e.ns = G.ns /\ e.wts = G.wts
                 /\ e.wn = [i \in 1..Len(G.wts) |-> "c" \o ToString(i - 1)]
Flags(e) == [i \in 1..Len(e.arcs) |-> e.arcs[i].x]
Query(e) ==
  CASE e.op = "best" -> BestOk(g, e.idx, Plus1(e.ex), e.alt, e.sc, e.path)
    [] e.op = "nbest" -> /\ e.hl /\ NBestOk(g, e.len, e.res)
                         /\ e.ncs \in {0, Len(e.res)}
    [] e.op = "scores" -> LET P == Prev(g, e.idx) R == Rest(g)
                             IN \A i \in 1..g.ns : /\ e.prev[i] = P[i - 1]
                                                    /\ (e.rest[i] = R[i - 1] \/ (R[i - 1] = None /\ e.rest[i] < None \div 2))
    [] e.op = "dump" ->
         /\ StateIs(g, e)
         /\ Len(e.pr) = g.ns /\ Len(e.su) = g.ns
         /\ \A s \in 0..(g.ns - 1) : /\ Plus1(e.pr[s + 1]) = {i \in Live(g) : g.arcs[i].s = s} /\ Len(e.pr[s + 1]) = Cardinality(Rng(e.pr[s + 1]))
                                     /\ Plus1(e.su[s + 1]) = {i \in Live(g) : g.arcs[i].p = s} /\ Len(e.su[s + 1]) = Cardinality(Rng(e.su[s + 1]))
         /\ e.np = Cardinality(Live(g)) /\ e.den = e.np /\ e.na = Len(g.arcs) /\ e.empty = (g.arcs = <<>>) /\ e.rng
         /\ \A s \in 0..(Len(e.isfin) - 1) : e.isfin[s + 1] = (s \in g.fin)
    [] OTHER -> FALSE
Act(e) ==
  CASE e.op = "arc" -> AddArc(e.p, e.s, e.w, e.sc, e.c)
    [] e.op = "final" -> AddFinal(e.s)
    [] e.op = "init" -> SetInit(e.v)
    [] e.op = "setw" -> SetWeights(e.wts) /\ StateIs(g', e)
    [] e.op = "prune" -> IF e.k = -1 THEN Unprune /\ StateIs(g', e) /\ e.n = 0
                         ELSE Len(e.arcs) = Len(g.arcs) /\ Prune(e.k, Flags(e)) /\ StateIs(g', e) /\ e.n = Cardinality(Ids(g')) - Cardinality(Live(g'))
    [] e.op = "topo" -> Topo(e.arcs) /\ StateIs(g', e)
    [] e.op = "useful" -> Useful(e.arcs, Rng(e.fin), e.ns) /\ StateIs(g', e)
    [] e.op = "saveload" -> e.ok /\ e.ok2 /\ SaveLoad(e.u) /\ StateIs(g', e)
    [] e.op = "loadraw" -> e.ok /\ LoadRaw(e.arcs_in, Rng(e.fin), e.wts) /\ StateIs(g', e)
    [] e.op = "clear" -> Clear /\ StateIs(g', e)
    [] OTHER -> UNCHANGED g /\ Query(e)
TraceInit == g = EmptyGraph /\ h \in 1..Len(Traces) /\ l = 1
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<g, h, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<g, h, l>>
=============================================================================
