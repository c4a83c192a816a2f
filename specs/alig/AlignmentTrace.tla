--------------------------- MODULE AlignmentTrace ---------------------------
(* Accepts exactly the recorded histories of the real classes and of         *)
(* thot_alig_op that the specification allows.                               *)
EXTENDS Alignment, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, reg
vars == <<h, l, reg>>
Init == h \in DOMAIN Traces /\ l = 1 /\ reg = [r \in 0..2 |-> Zero(0, 0)]
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
After(e) ==
    LET a == reg[e.r] IN
    CASE e.op = "load" -> e.m
      [] e.op = "op" -> Op(e.o, a, reg[e.q])
      [] e.op = "assign" -> reg[e.q]
      [] e.op = "flip" -> Flip(a)
      [] e.op = "transpose" -> Transp(a)
      [] e.op = "reset" -> Zero(a.I, a.J)
      [] e.op = "clear" -> Zero(0, 0)
      [] e.op = "set" -> [a EXCEPT !.c = [i \in 1..a.I |-> [j \in 1..a.J |-> 1]]]
      [] e.op = "cell" -> IF e.i \in 1..a.I /\ e.j \in 1..a.J THEN [a EXCEPT !.c[e.i][e.j] = e.v] ELSE a
      [] e.op = "putvec" -> FromVec(a, e.v)
      [] OTHER -> a
Answer(e, a) ==
    CASE e.op = "tovec" -> e.ok = VecOk(a) /\ e.v = (IF VecOk(a) THEN ToVec(a) ELSE <<>>)
      [] e.op = "equal" -> e.eq = (a = reg[e.q])
      [] e.op = "pred" ->
            /\ e.row = [i \in 1..a.I |-> RowUsed(a, i)] /\ e.col = [j \in 1..a.J |-> ColUsed(a, j)]
            /\ e.hor = [i \in 1..a.I |-> [j \in 1..a.J |-> Horiz(a, i, j)]]
            /\ e.ver = [i \in 1..a.I |-> [j \in 1..a.J |-> Vert(a, i, j)]]
            /\ e.nei = [i \in 1..a.I |-> [j \in 1..a.J |-> Horiz(a, i, j) \/ Vert(a, i, j)]]
      [] OTHER -> TRUE
Matrix == /\ "r" \in DOMAIN E
          /\ reg' = [reg EXCEPT ![E.r] = TLCEval(After(E))]
          /\ Val(\A r \in 0..2 : E.regs[r + 1] = reg'[r])        \* the other matrices are untouched
          /\ Val(Answer(E, reg'[E.r]))
(* Files: what thot_alig_op writes, and what AlignmentExtractor reads back.  *)
NoReps(f) == [k \in DOMAIN f |-> [f[k] EXCEPT !.n = 0]]
File == /\ E.op = "file" /\ UNCHANGED reg
        /\ Val(LET f == TranspFile(E.f, E.gt) IN
           /\ E.rc = 0
           /\ CASE E.mode = "pair" -> E.out = OpFiles(E.ops, f)
                [] E.mode = "exh" -> NoReps(E.out) = NoReps(Exhaustive(E.ops, f))
                [] E.mode = "compact" -> ToSet(E.out) = Compact(E.ops, f) /\ Len(E.out) = Cardinality(Compact(E.ops, f)))
Read == /\ E.op = "read" /\ UNCHANGED reg
        /\ Val(E.out = E.f /\ E.trout = TranspFile(E.f, TRUE) /\ E.again = E.f)
Step == l <= Len(Traces[h]) /\ (Matrix \/ File \/ Read) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
