---------------------------- MODULE EditDistTrace ----------------------------
EXTENDS EditDist, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, c, w, x, y, fin    \* costs, model weights; the automaton's words, the prefix fed so far
vars == <<c, w, x, y, fin>>
Ev == Traces[h][l]
Neg(q) == [k \in DOMAIN q |-> 0 - q[k]]
Counts(e, cost) == e.n[1] * c.h + e.n[2] * c.i + e.n[3] * c.s + e.n[4] * c.d = cost
Lens(e) == e.n[1] + e.n[3] + e.n[4] = Len(e.x) /\ e.n[1] + e.n[3] + e.n[2] = Len(e.y)
ChrOk(e) ==
  LET t == CharTable(c, e.x, e.y) d == Corner(t) p == LastColMin(t) IN
  /\ e.d = d /\ e.d2 = d /\ Counts(e, d) /\ Lens(e)
  /\ e.vd = d /\ e.vn[1] * c.h + e.vn[2] * c.i + e.vn[3] * c.s + e.vn[4] * c.d = d
  /\ e.p = p /\ e.p2 = p /\ Part(CharScript(c, e.po, e.x, e.y), e.x, e.y, p)
  /\ e.q = d /\ Whole(CharScript(c, e.qo, e.x, e.y), e.x, e.y, d)
WrdOk(e) ==
  LET full == Corner(WordTable(c, e.x, e.y, TRUE)) t == WordTable(c, e.x, e.y, e.fin) d == Corner(t) p == LastColMin(t) IN
  /\ e.d = full /\ Lens(e) /\ e.sim = 0 - full
  /\ e.p = p /\ e.p2 = p /\ e.simp = 0 - p /\ Part(WordScript(c, e.po, e.x, e.y, e.fin), e.x, e.y, p)
  /\ e.q = d /\ Whole(WordScript(c, e.qo, e.x, e.y, e.fin), e.x, e.y, d)
  /\ e.cor \in Corrections(c, e.x, e.y, e.fin, TRUE)
  /\ e.corwg \in Corrections(c, e.x, e.y, e.fin, FALSE)
EsiOk(e) ==
  LET t == WordTable(c, x', y', fin') IN
  /\ e.rows = [k \in 1..Len(x') + 1 |-> Neg(t[k])]
  /\ Len(e.preds) = Len(x')
  /\ \A k \in 1..Len(x') : Len(e.preds[k]) = Len(y') + 1
       /\ \A j \in 0..Len(y') : PredOk(c, t, x', y', fin', k, j, e.preds[k][j + 1])
  /\ \A k \in 1..Len(x') + 1 : e.npos[k] = Len(y') + 1
Act(e) ==
  CASE e.op = "costs" -> c' = [h |-> e.h, i |-> e.i, s |-> e.s, d |-> e.d] /\ x' = <<>> /\ y' = <<>> /\ fin' = TRUE /\ UNCHANGED w
    [] e.op = "chr" -> (IF ChrOk(e) THEN TRUE ELSE FALSE) /\ UNCHANGED vars
    [] e.op = "wrd" -> (IF WrdOk(e) THEN TRUE ELSE FALSE) /\ UNCHANGED vars
    [] e.op = "words" -> x' = e.x /\ y' = <<>> /\ fin' = TRUE /\ UNCHANGED <<c, w>> /\ (IF EsiOk(e) THEN TRUE ELSE FALSE)
    [] e.op = "feed" -> fin /\ e.y # <<>> /\ y' = y \o e.y /\ fin' = e.fin /\ UNCHANGED <<c, w, x>> /\ (IF EsiOk(e) THEN TRUE ELSE FALSE)
    [] e.op = "drop" -> e.n <= Len(y) /\ y' = SubSeq(y, 1, Len(y) - e.n) /\ fin' = TRUE /\ UNCHANGED <<c, w, x>> /\ (IF EsiOk(e) THEN TRUE ELSE FALSE)
    [] e.op = "wts" -> w' = (IF ValidW(e.w) THEN e.w ELSE w) /\ UNCHANGED <<c, x, y, fin>> /\ (IF ProbsOk(w', e.p) THEN TRUE ELSE FALSE)
    [] OTHER -> FALSE
TraceInit == /\ h \in 1..Len(Traces) /\ l = 1 /\ c = [h |-> 0, i |-> 1, s |-> 1, d |-> 1]
             /\ w = <<128, 800, 1, 1, 1>> /\ x = <<>> /\ y = <<>> /\ fin = TRUE
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<vars, h, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, h, l>>
=============================================================================
