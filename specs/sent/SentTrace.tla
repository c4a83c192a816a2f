------------------------------ MODULE SentTrace ------------------------------
EXTENDS Sent, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, ps, m, disk, saved
vars == <<h, l, ps, m, disk, saved>>
Init == h \in DOMAIN Traces /\ l = 1 /\ ps = <<>> /\ m = Fresh(-1) /\ disk = <<>> /\ saved = <<>>
E == Traces[h][l]
Kind == Traces[h][1].model
Val(x) == IF x THEN TRUE ELSE FALSE
Hmm == Kind \in {"hmm", "hmmp0"}
MaxSent == IF Hmm THEN 200 ELSE 1024
Has(f) == f \in DOMAIN E
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* values in thousandths against quarters
Near(v, q) == Abs(v - 250 * q) <= 4 + (250 * q) \div (IF Hmm THEN 25 ELSE 500)
Setup == E.op = "setup" /\ UNCHANGED <<ps, m, disk, saved>>
Files == /\ E.op = "files" /\ disk' = Put(disk, E.f, [s |-> E.s, t |-> E.t, c |-> IF Has("c") THEN E.c ELSE NoCounts])
         /\ UNCHANGED <<ps, m, saved>>
Read == /\ E.op = "read" /\ UNCHANGED <<m, disk, saved>>
        /\ LET ok == E.f \in DOMAIN disk /\ Readable(disk[E.f], E.c) IN
           /\ Val(E.ret = ok)
           /\ ps' = IF ok THEN PairsOf(disk[E.f], E.c) ELSE <<>>
           /\ Val(E.num = Len(ps'))
           /\ Val((ok /\ ps' # <<>>) => E.r = <<0, Len(ps') - 1>>)
Add == /\ E.op = "add" /\ UNCHANGED <<m, disk, saved>>
       /\ Val(E.r = <<Len(ps), Len(ps)>> /\ E.num = Len(ps) + 1)
       /\ ps' = Append(ps, [s |-> E.s, t |-> E.t, c |-> E.c])
Nth == /\ E.op = "nth" /\ UNCHANGED <<ps, m, disk, saved>>
       /\ IF E.n < Len(ps) THEN Val(E.ret /\ E.pair = ps[E.n + 1] /\ E.sep = ps[E.n + 1]) ELSE Val(~E.ret)
PrintF == /\ E.op = "print" /\ E.ret /\ disk' = Put(disk, E.f, TLCEval(FilesOf(ps))) /\ UNCHANGED <<ps, m, saved>>
\* Parameters: expected counts of target words and source lengths, numerators of a source word
\* against its denominator, sentence lengths
Lex == {<<w, m'.mass[w]>> : w \in DOMAIN m'.mass}
Stat ==
  /\ Val(~E.nan)
  /\ Val(\A w \in DOMAIN m'.mass : \E x \in Range(E.lex) : x[1] = w /\ Near(x[2], m'.mass[w]))
  /\ Val(\A x \in Range(E.lex) : x[1] \in DOMAIN m'.mass \/ x[2] = 0)
  /\ Val(\A x \in Range(E.src) : Abs(x[2] - x[3]) <= 6 + x[2] \div 200)
  /\ Val(Kind \notin {"ibm1", "sibm1"} => /\ \A k \in DOMAIN m'.am : k <= 5 => \E x \in Range(E.am) : x[1] = k /\ Near(x[2], m'.am[k]) /\ Abs(x[2] - x[3]) <= 10 + x[2] \div 200
                          /\ \A x \in Range(E.am) : x[1] \in DOMAIN m'.am \/ x[2] = 0)
  /\ Val(\A k \in DOMAIN m'.sl : \E x \in Range(E.sl) : x[1] = k /\ LET q == m'.sl[k] IN
        /\ x[2] = q[1] /\ Abs(x[3] - 250 * q[2]) <= 2
        /\ (q[2] # 0 /\ k <= 5 /\ q[3] <= 2000000 /\ q[4] <= 2000000000 \div q[2]) =>
              LET d == q[2] * q[4] - q[3] * q[3] IN
              /\ Abs(x[4] - (1000 * q[3]) \div q[2]) <= 4
              /\ (d \div q[2] <= 7000000) =>
                    LET v == 250 * (d \div q[2]) + (250 * (d % q[2])) \div q[2] IN Abs(x[5] - v) <= 10 + v \div 500)
  /\ Val({x[1] : x \in Range(E.sl)} = DOMAIN m'.sl)
InRange == E.a <= E.b /\ E.b < Len(ps)
TrainR == E.op = "train" /\ InRange /\ m' = TLCEval(Train(m, ps, E.a, E.b, MaxSent)) /\ Stat /\ UNCHANGED <<ps, disk, saved>>
TrainA == E.op = "all" /\ m' = TLCEval(Train(m, ps, 0, Len(ps) - 1, MaxSent)) /\ Stat /\ UNCHANGED <<ps, disk, saved>>
BatchR == E.op = "batch" /\ InRange /\ m' = TLCEval(Batch(m, ps, E.a, E.b, MaxSent)) /\ Stat /\ UNCHANGED <<ps, disk, saved>>
BatchA == E.op = "batchall" /\ m' = TLCEval(Batch(m, ps, 0, Len(ps) - 1, MaxSent)) /\ Stat /\ UNCHANGED <<ps, disk, saved>>
Cap == E.op = "cap" /\ m' = SetCap(m, E.n) /\ Stat /\ UNCHANGED <<ps, disk, saved>>
ClearInfo == E.op = "clearinfo" /\ m' = Forget(m) /\ ps' = <<>> /\ Stat /\ UNCHANGED <<disk, saved>>
Clear == E.op = "clear" /\ m' = Fresh(m.cap) /\ ps' = <<>> /\ Stat /\ UNCHANGED <<disk, saved>>
Save == E.op = "save" /\ Val(E.ret) /\ saved' = Put(saved, E.f, [ps |-> ps, m |-> m]) /\ disk' = Put(disk, E.f, TLCEval(FilesOf(ps))) /\ UNCHANGED <<ps, m>>
Load == /\ E.op = "load" /\ Val(E.ret) /\ E.f \in DOMAIN saved
        /\ ps' = saved[E.f].ps /\ m' = saved[E.f].m /\ Stat /\ Val(E.num = Len(ps')) /\ UNCHANGED <<disk, saved>>
Prog == /\ E.op = "prog" /\ UNCHANGED <<disk, saved>> /\ Val(E.ret = OptionsOk(E.o))
        /\ IF E.ret
           THEN LET q == TLCEval(IF E.o.l THEN saved[E.f].ps ELSE PairsOf(disk[E.f], FALSE)) IN
                /\ ps' = q /\ m' = TLCEval(Continue(IF E.o.l THEN saved[E.f].m ELSE Fresh(-1), q, E.o, MaxSent)) /\ Stat
           ELSE ps' = <<>> /\ m' = Fresh(-1)
        /\ Val(E.num = Len(ps'))
Step == /\ l <= Len(Traces[h])
        /\ (Setup \/ Files \/ Read \/ Add \/ Nth \/ PrintF \/ TrainR \/ TrainA \/ BatchR \/ BatchA \/ Cap \/ ClearInfo \/ Clear \/ Save \/ Load \/ Prog)
        /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
