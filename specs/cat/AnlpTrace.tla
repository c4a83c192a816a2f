------------------------------ MODULE AnlpTrace ------------------------------
EXTENDS Anlp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, g, k, pre, n   \* graph, [c, wgw, ecw], the prefix as typed so far, size of the list
vars == <<g, k, pre, n>>
Ev == Traces[h][l]
Rng(q) == {q[i] : i \in DOMAIN q}
Words(p) == SelectSeq(FoldLeft(LAMBDA r, ch : IF ch = 32 THEN Append(r, <<>>) ELSE [r EXCEPT ![Len(r)] = Append(@, ch)], <<<<>>>>, p), LAMBDA w : w # <<>>)
Fin(p) == Words(p) = <<>> \/ Last2(p) = 32
Starts(r, y, fin) == Len(r) >= Len(y) /\ \A i \in 1..Len(y) : IF i = Len(y) /\ ~fin THEN IsPrefix(y[i], r[i]) ELSE y[i] = r[i]
ResultOk(res, p, num, rej) ==
  LET y == TLCEval(Words(p)) fin == Fin(p) c == k.c
      m == TLCEval(Model(g, c, k.wgw, k.ecw, y, fin))
      rest == TLCEval(Rests(g))
      S == StateCands(g, m, k.wgw, rest, rej)
      Q == SubCands(g, rej)
      cands == TLCEval({<<1, s, 0, StateScore(g, m, k.wgw, rest, rej, s)>> : s \in S} \cup {<<2, q[1], q[2], SubScore(g, m, k.wgw, k.ecw, rest, q)>> : q \in Q})
      Above(v) == Cardinality({x \in cands : x[4] > v})
      Same(v) == Cardinality({x \in cands : x[4] = v})
      Got(v) == Cardinality({i \in DOMAIN res : res[i][1] = v})
      Texts(x) == IF x[1] = 1 THEN StateTexts(g, c, m, y, fin, rest, rej, x[2]) ELSE SubTexts(g, c, m, y, fin, rest, <<x[2], x[3]>>)
  IN /\ Len(res) = Min2(num, Cardinality(cands))
     /\ \A i \in 1..Len(res) - 1 : res[i][1] >= res[i + 1][1]
     /\ \A i \in DOMAIN res : Starts(res[i][2], y, fin)
     /\ (m.amb \/ \A v \in {res[i][1] : i \in DOMAIN res} : Got(v) = Min2(Same(v), num - Above(v)))
     /\ (m.amb \/ \A i \in DOMAIN res : \E x \in cands : x[4] = res[i][1] /\ res[i][2] \in Texts(x))
Rej(e) == {<<r[1], r[2]>> : r \in Rng(e.rej)}
Act(e) ==
  CASE e.op = "graph" -> /\ g' = [arcs |-> e.arcs, fin |-> Rng(e.fin), init |-> e.init]
                         /\ k' = [c |-> [h |-> e.h, i |-> e.i, s |-> e.s, d |-> e.d], wgw |-> e.wgw, ecw |-> e.ecw]
                         /\ pre' = <<>> /\ n' = n
    [] e.op = "cor" -> (IF ResultOk(e.res, e.p, e.n, Rej(e)) THEN TRUE ELSE FALSE) /\ pre' = e.p /\ UNCHANGED <<g, k, n>>
    [] OTHER -> FALSE
TraceInit == /\ h \in 1..Len(Traces) /\ l = 1 /\ pre = <<>> /\ n = 1 /\ g = [arcs |-> <<>>, fin |-> {}, init |-> 0]
             /\ k = [c |-> [h |-> 0, i |-> 1, s |-> 1, d |-> 1], wgw |-> 1, ecw |-> 1]
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<vars, h, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, h, l>>
=============================================================================
