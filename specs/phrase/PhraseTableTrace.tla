-------------------------- MODULE PhraseTableTrace --------------------------
(* Every recorded history of a real phrase table must be a behaviour of        *)
(* PhraseTable: updates are the specification's actions, and each query's      *)
(* recorded answer must be the one the specification gives in that state.      *)
(* (The n-best lists of a phrase with count 0 are undefined: 0 / 0.)            *)
(* A trace that is not deadlocks at the first event it does not allow.         *)
EXTENDS PhraseTable, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l
Ev == Traces[h][l]
Impl == Traces[h][1].impl
Bdb == Impl \in {"bdb", "fbdb"}
Rng(q) == {q[i] : i \in 1..Len(q)}

Query(e) ==
  CASE e.op = "q" ->
         /\ e.cs = Get(cs, e.s) /\ e.fs = (e.s \in DOMAIN cs)
         /\ e.ct = Get(ct, e.t)
         /\ e.cst = Get(cst, <<e.s, e.t>>) /\ e.fst = (<<e.s, e.t>> \in DOMAIN cst)
         /\ e.pts = Freq(e.s, e.t, Get(cs, e.s))
         /\ e.pst = Freq(e.s, e.t, Get(ct, e.t))
         /\ e.lpok
         /\ IF Bdb THEN TRUE
            ELSE /\ e.inf1 = Get(cs, e.s) /\ e.inf2 = Get(cst, <<e.s, e.t>>)
                 /\ e.finf = (e.s \in DOMAIN cs /\ <<e.s, e.t>> \in DOMAIN cst)
    [] e.op = "eft" -> /\ e.ret = (PairsOfTrg(e.t) # {})
                       /\ IF Bdb THEN {<<x[1], x[3]>> : x \in Rng(e.res)} = {<<p[1], cst[p]>> : p \in PairsOfTrg(e.t)}
                                 ELSE Rng(e.res) = EntriesForTrg(e.t)
    [] e.op = "efs" -> e.ret = (PairsOfSrc(e.s) # {}) /\ Rng(e.res) = EntriesForSrc(e.s)
    [] e.op = "nbt" -> /\ e.ret = (PairsOfTrg(e.t) # {})
                       /\ Get(ct, e.t) > 0 => NBest(e.res, PairsOfTrg(e.t), LAMBDA p : p[1], e.n)
    [] e.op = "nbs" -> /\ e.ret = (PairsOfSrc(e.s) # {})
                       /\ Get(cs, e.s) > 0 => NBest(e.res, PairsOfSrc(e.s), LAMBDA p : p[2], -1)
    [] e.op = "size" -> e.n = Size
    [] e.op = "iter" ->
         LET got == Rng(e.res)
             S == {<<"s", s, 0, cs[s]>> : s \in {x \in DOMAIN cs : cs[x] # 0}}
             T == {<<"t", 0, t, ct[t]>> : t \in {x \in DOMAIN ct : ct[x] # 0}}
             P == {<<"p", p[1], p[2], cst[p]>> : p \in {x \in DOMAIN cst : cst[x] # 0}}
         IN /\ Cardinality(got) = Len(e.res)
            /\ got = IF Impl = "hat" THEN T ELSE S \cup T \cup P
    [] OTHER -> FALSE

Act(e) ==
  CASE e.op = "init" -> UNCHANGED vars
    [] e.op = "incr" -> Incr(e.s, e.t, e.c)
    [] e.op = "entry" -> AddEntry(e.s, e.t, e.c, e.d)
    [] e.op = "addsrc" -> AddSrc(e.s, e.c)
    [] e.op = "addst" -> AddPair(e.s, e.t, e.c)
    [] e.op = "clear" -> Clear
    [] e.op = "reload" -> e.ok /\ Reload
    [] e.op = "fast" -> UNCHANGED vars
    [] OTHER -> UNCHANGED vars /\ Query(e)

TraceInit == PTInit /\ h \in 1..Len(Traces) /\ l = 1
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<vars, h, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, h, l>>
=============================================================================
