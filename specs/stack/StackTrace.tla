----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l
Ev == Traces[h][l]
Rng(q) == {q[i] : i \in 1..Len(q)}
Observed(e) ==  \* the recorded contents after the operation
  /\ Rng(e.stk) = stk' /\ Len(e.stk) = Cardinality(stk')
  /\ \A i, j \in 1..Len(e.stk) : i < j /\ e.stk[i].cls = e.stk[j].cls => e.stk[i].sc >= e.stk[j].sc
  /\ e.size = Cardinality({x.cls : x \in stk'}) /\ e.empty = (stk' = {})
  /\ e.dsize = Cardinality(DOMAIN dict')
  /\ {<<d[1], d[2], d[3]>> : d \in Rng(e.dict)} = {<<s, dict'[s].idx, dict'[s].sc>> : s \in DOMAIN dict'}
Act(e) ==
  CASE e.op = "push" -> Push(e.h, e.ret)
    [] e.op = "pop" -> IF stk = {} THEN e.res = <<>> /\ UNCHANGED vars ELSE Pop(e.res[1])
    [] e.op = "top" -> (IF stk = {} THEN e.res = <<>> ELSE e.res[1] \in Tops) /\ UNCHANGED vars
    [] e.op = "last" -> (IF stk = {} THEN e.res = <<>> ELSE e.res[1] \in Lasts) /\ UNCHANGED vars
    [] e.op = "rmlast" -> IF stk = {} THEN UNCHANGED vars ELSE \E x \in Lasts : RemoveLast(x)
    [] e.op = "max" -> SetMax(e.n)
    [] e.op = "bf" -> SetBf(e.b)
    [] e.op = "clear" -> Clear
    [] e.op = "clearall" -> ClearAll
    [] OTHER -> FALSE
TraceInit == StackInit /\ h \in 1..Len(Traces) /\ l = 1
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ Observed(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<vars, h, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, h, l>>
=============================================================================
