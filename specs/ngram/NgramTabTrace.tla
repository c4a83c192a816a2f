--------------------------- MODULE NgramTabTrace ----------------------------
EXTENDS NgramTab, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, m
vars == <<h, l, m>>
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Near(a, b, t) == a - b <= t /\ b - a <= t
Init == h \in DOMAIN Traces /\ l = 1 /\ m = NewTab("vec")
COk(got, c) == Near(got, c, 1 + c \div 2000000)
\* Logarithms of counts go through floats.
LcOk(got, c) == IF c = 0 THEN got = 0 ELSE Near(got, c, 2 + c \div 200000)
\* a/b in millionths, up to 200 (b not above 2*10^8)
Ratio(a, b) == IF a \div b >= 200 THEN 200000000 ELSE LET d == FoldLeft(LAMBDA x, i : <<x[1] * 10 + (x[2] * 10) \div b, (x[2] * 10) % b>>, <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6>>) IN d[1]
POk(got, a, b) == IF a = 0 \/ b = 0 THEN got = 0 ELSE LET r == Ratio(a, b) IN Near(got, r, 8 + r \div 50000)
St(s, t) == Get(m.st, Append(s, t))
Look ==
  LET s == E.s t == E.t c == St(s, t) cs == SrcOf(m, s) IN
  /\ COk(E.cs, cs) /\ COk(E.cst, c) /\ LcOk(E.lcs, cs) /\ LcOk(E.lcst, c)
  /\ E.fst = (IF Append(s, t) \in DOMAIN m.st THEN 1 ELSE 0) \/ (m.kind = "vec" /\ c = 0)
  /\ E.fs = (IF s = <<>> \/ (IF m.kind = "ldb" THEN s \in DOMAIN m.st ELSE s \in DOMAIN m.src) THEN 1 ELSE 0) \/ (m.kind = "vec" /\ cs = 0)
  /\ POk(E.p, c, cs) /\ POk(E.lp, c, cs)
Rev ==
  LET s == E.s t == E.t c == St(s, t) ct == CTrg(m, t) IN
  COk(E.ct, ct) /\ LcOk(E.lct, ct) /\ POk(E.p, c, ct) /\ POk(E.lp, c, ct)
\* Entries come as <<n-gram, count of the history, count>>, the best ones as <<n-gram, ratio>>.
EntOk(es, G) == /\ Len(es) = Cardinality(G) /\ {es[i][1] : i \in DOMAIN es} = G
                /\ \A i \in DOMAIN es : COk(es[i][2], SrcOf(m, Butl(es[i][1]))) /\ COk(es[i][3], m.st[es[i][1]])
NbOk(nb, G, n) ==
  LET g == {x \in G : SrcOf(m, Butl(x)) > 0} IN
  /\ g # G \/ /\ Len(nb) = (IF n >= 0 /\ n < Cardinality(G) THEN n ELSE Cardinality(G))
              /\ \A i \in DOMAIN nb : nb[i][1] \in G /\ POk(nb[i][2], m.st[nb[i][1]], SrcOf(m, Butl(nb[i][1])))
              /\ \A i, j \in DOMAIN nb : i < j => nb[i][1] # nb[j][1] /\ nb[i][2] >= nb[j][2] - 2
              /\ \A x \in G : (\E i \in DOMAIN nb : nb[i][1] = x) \/ \A i \in DOMAIN nb : nb[i][2] + 20 + nb[i][2] \div 50000 >= Ratio(m.st[x], SrcOf(m, Butl(x)))
Ent == LET G == IF E.of = "s" THEN OfSrc(m, E.s) ELSE OfTrg(m, E.t) IN
       EntOk(E.es, G) /\ E.ret = (IF G = {} THEN 0 ELSE 1) /\ NbOk(E.nb, G, IF E.of = "s" THEN -1 ELSE E.n) /\ E.nret = E.ret
All == LET G == Grams(m) IN /\ Len(E.es) = Cardinality(G) /\ {E.es[i][1] : i \in DOMAIN E.es} = G /\ \A i \in DOMAIN E.es : COk(E.es[i][2], m.st[E.es[i][1]])
Step == /\ l <= Len(Traces[h]) /\ l' = l + 1 /\ h' = h
        /\ \/ E.op = "new" /\ m' = NewTab(E.kind)
           \/ E.op = "clear" /\ m' = NewTab(m.kind)
           \/ E.op = "reload" /\ m' = m
           \/ E.op = "add" /\ m' = AddEntry(m, E.s, E.t, E.cs, E.c)
           \/ E.op = "addst" /\ m' = SetSt(m, E.s, E.t, E.c)
           \/ E.op = "addsrc" /\ m' = SetSrc(m, E.s, E.cs)
           \/ E.op = "incr" /\ m' = Incr(m, E.s, E.t, E.c)
           \/ E.op = "look" /\ m' = m /\ Val(Look)
           \/ E.op = "rev" /\ m' = m /\ Val(Rev)
           \/ E.op = "ent" /\ m' = m /\ Val(Ent)
           \/ E.op = "all" /\ m' = m /\ Val(All)
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
