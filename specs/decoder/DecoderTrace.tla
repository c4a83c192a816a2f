----------------------------- MODULE DecoderTrace -----------------------------
(* Every recorded session of a real decoder is a behaviour of Decoder: each    *)
(* answer depends on its own request, the models and the settings only.        *)
EXTENDS Decoder, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, S
Ev == Traces[h][l]
Rng(q) == {q[i] : i \in 1..Len(q)}
NoReq == [k |-> "none"]
Model(e) == [lm |-> e.lm, j |-> e.j, sl |-> e.sl, tl |-> e.tl, wp |-> e.wp,
  pt |-> TLCEval([k \in {<<p.s, p.t>> : p \in Rng(e.pt)} |-> LET p == CHOOSE p \in Rng(e.pt) : <<p.s, p.t>> = k IN <<p.d, p.i>>]),
  dict |-> TLCEval([k \in {<<p.s, p.t>> : p \in Rng(e.dict)} |-> (CHOOSE p \in Rng(e.dict) : <<p.s, p.t>> = k).v])]
RECURSIVE Flat(_), Cons(_, _)
Flat(q) == IF q = <<>> THEN <<>> ELSE (IF "c" \in DOMAIN q[1] THEN q[1].c ELSE <<q[1].s>>) \o Flat(Tail(q))
Cons(q, n) == IF q = <<>> THEN <<>>
              ELSE IF "c" \in DOMAIN q[1] THEN (<<n + 1, n + Len(q[1].c)>> :> q[1].t) @@ Cons(Tail(q), n + Len(q[1].c))
              ELSE Cons(Tail(q), n + 1)
Plain(e) == e.op \in {"trans", "sug"}
Ctx(e) ==
  LET B == [m |-> S.m, w |-> IF Plain(e) /\ e.sw # <<>> THEN e.sw ELSE S.w, par |-> S.par, src |-> Flat(e.toks),
            cons |-> IF Plain(e) THEN Cons(e.toks, 0) ELSE <<>>, mode |-> IF Plain(e) THEN "plain" ELSE e.op,
            ref |-> IF Plain(e) THEN <<>> ELSE e.ref, blank |-> IF e.op = "prefix" THEN e.blank ELSE FALSE]
  IN TLCEval(IF Plain(e) THEN B @@ [opt |-> TLCEval([p \in {x \in (1..J(B)) \X (1..J(B)) : x[1] <= x[2]} |-> PlainOpt(B, p[1], p[2])])] ELSE B)
(* The caller's partial hypothesis of a "sug" request: its state and score. *)
RECURSIVE Given(_, _, _, _)
Given(C, st, acc, steps) == IF steps = <<>> THEN <<st, acc>>
                            ELSE LET s == StepTo(C, st, steps[1].l, steps[1].r, steps[1].t) IN Given(C, s.q, acc + s.d, Tail(steps))
Free(e) == IF e.op = "sug" THEN Len(e.steps) ELSE 0
StartsWith(e) == /\ Len(e.r.segs) >= Free(e)
                 /\ \A i \in 1..Free(e) : /\ e.r.segs[i] = <<e.steps[i].l, e.steps[i].r>>
                                          /\ SubSeq(e.r.ws, (IF i = 1 THEN 0 ELSE e.r.cuts[i - 1]) + 1, e.r.cuts[i]) = e.steps[i].t
(* Nothing can be lost: whole levels are expanded, or the search is best-first *)
(* with scores that never increase, and the stacks are big enough.              *)
Exhaustive(p, n) == p.bf /\ p.I = 1 /\ ~p.bsp /\ p.S >= n
Optimal(C, D, p) ==
  /\ p.I = 1 /\ p.S >= Cardinality(DOMAIN D.best)
  /\ \/ p.bf
     \/ /\ p.heur = 0 /\ C.mode \in {"plain", "ver"}
        /\ \A t \in D.T : t.d <= 0 /\ (Complete(C, t.q) => t.d + Final(C, t.q) <= 0)
Full(C, D, q) == D.best[q] + Final(C, q)
Request(e) ==
  LET C == Ctx(e)
      g == IF e.op = "sug" THEN Given(C, Start(C), Init0(C), e.steps) ELSE <<Start(C), Init0(C)>>
  IN IF S.par.I = 1 /\ S.par.S >= 1000
     THEN LET D == Search(C, g[1], g[2]) F == Finals(C, D)
              amb == Ambiguous(C, D)
              ex == Exhaustive(S.par, Cardinality(DOMAIN D.best)) /\ ~amb
              op == ~amb /\ Optimal(C, D, S.par)
          IN /\ IF F = {} /\ op THEN IsNull(e.r) \/ ~e.r.ok
                ELSE IF e.r.ok THEN Legal(C, Free(e), e.r) /\ StartsWith(e) /\ (op => e.r.sc = MaxOf({Full(C, D, q) : q \in F}))
                ELSE ~op /\ (C.mode \in {"ref", "ver"} \/ ~S.par.bf)
             /\ S' = [S EXCEPT !.req = IF ex THEN [k |-> "exact", C |-> C, D |-> D, F |-> F, free |-> Free(e), g |-> g[1],
                                                   rem |-> IF F = {} THEN {} ELSE F \ {EndState(C, e.r)}]
                                       ELSE [k |-> "any", C |-> C, free |-> Free(e)]]
     ELSE /\ IF e.r.ok THEN Legal(C, Free(e), e.r) /\ StartsWith(e) ELSE C.mode \in {"ref", "ver"} \/ ~S.par.bf
          /\ S' = [S EXCEPT !.req = [k |-> "any", C |-> C, free |-> Free(e)]]
(* Further translations: each remaining final state once, best first. *)
NextTrans(e) ==
  LET q == S.req IN
  CASE q.k = "exact" ->
         IF q.rem = {} THEN IsNull(e.r) /\ S' = S
         ELSE /\ e.r.ok /\ Legal(q.C, q.free, e.r)
              /\ LET f == EndState(q.C, e.r) IN
                 /\ f \in q.rem /\ e.r.sc = Full(q.C, q.D, f) /\ \A x \in q.rem : Full(q.C, q.D, x) <= e.r.sc
                 /\ S' = [S EXCEPT !.req.rem = @ \ {f}]
    [] q.k = "any" -> (e.r.ok /\ ~IsNull(e.r) => Legal(q.C, q.free, e.r)) /\ S' = S
    [] OTHER -> S' = S
(* The word graph of an exhaustive search: exactly the derivations. *)
Words(C, t) == IF t.t = <<1>> THEN <<1000 + C.src[t.l]>> ELSE t.t
RECURSIVE Derivs(_, _, _, _), Paths(_, _, _)
Derivs(C, T, g, q) == IF q = g[1] THEN {<< <<>>, 0>>}
                      ELSE UNION {{<<d[1] \o Words(C, t), d[2] + t.d>> : d \in Derivs(C, T, g, t.p)} : t \in {x \in T : x.q = q}}
Paths(A, s, fin) == (IF s \in fin THEN {<< <<>>, 0>>} ELSE {})
                    \cup UNION {{<<a.w \o x[1], a.sc + x[2]>> : x \in Paths(A, a.s, fin)} : a \in {b \in Rng(A) : b.p = s}}
Graph(e) ==
  LET q == S.req IN
  q.k = "exact" /\ q.F # {} /\ q.C.mode # "ref" =>
    /\ Len(e.arcs) = Cardinality(q.D.T)
    /\ Cardinality(Rng(e.fin)) = Cardinality(q.F)
    /\ e.small => {<<x[1], x[2] + e.init>> : x \in Paths(e.arcs, 0, Rng(e.fin))}
                  = UNION {{<<d[1], d[2] + q.D.best[q.g] + Final(q.C, f)>> : d \in Derivs(q.C, q.D.T, <<q.g>>, f)} : f \in q.F}
    /\ {<<a.w, a.c>> : a \in Rng(e.arcs)} = {<<Words(q.C, t), IF Complete(q.C, t.q) THEN AddV(t.c, FinalComps(q.C.m, t.q)) ELSE t.c>> : t \in q.D.T}
    /\ S.par.heur = 0 /\ q.C.mode = "plain" => \A i \in 1..Len(e.arcs) : Dot(q.C.w, e.arcs[i].c) = e.arcs[i].sc
Act(e) ==
  CASE e.op = "setup" -> S' = [m |-> Model(e), w |-> S.w, par |-> S.par, req |-> NoReq]
    [] e.op = "w" -> S' = [S EXCEPT !.w = e.w]
    [] e.op = "par" -> S' = [S EXCEPT !.par = e]
    [] e.op \in {"trans", "sug", "ref", "ver", "prefix"} -> Request(e)
    [] e.op = "next" -> NextTrans(e)
    [] e.op = "wg" -> Graph(e) /\ S' = S
    [] e.op = "long" -> /\ (e.n = 0 \/ e.n >= 160 => e.empty) /\ (e.n \in 1..159 /\ e.kind = "trans" => ~e.empty)
                        /\ S' = [S EXCEPT !.req = NoReq]
    [] OTHER -> FALSE
TraceInit == S = [m |-> <<>>, w |-> <<>>, par |-> <<>>, req |-> NoReq] /\ h \in 1..Len(Traces) /\ l = 1
Step == l <= Len(Traces[h]) /\ Act(Ev) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED <<h, l, S>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<h, l, S>>
==============================================================================
