------------------------------ MODULE DecoderMC ------------------------------
(* Design check: every derivation of a set of small requests is built step by  *)
(* step.  The incremental scores are those of the whole derivation, states with *)
(* the same key have the same futures, the dynamic programme bounds every       *)
(* derivation and is attained, and the modes keep their promises.               *)
EXTENDS Decoder, Json
CONSTANTS Requests
VARIABLES C, D, st, der, acc
vars == <<C, D, st, der, acc>>
Init == /\ C \in Requests
        /\ D = Search(C, Start(C), Init0(C))
        /\ st = Start(C) /\ der = <<>> /\ acc = InitComps(C.m)
Next == \E t \in Trans(C, st) : st' = t.q /\ der' = Append(der, [l |-> t.l, r |-> t.r, t |-> t.t]) /\ acc' = AddV(acc, t.c) /\ UNCHANGED <<C, D>>
MCSpec == Init /\ [][Next]_vars
RECURSIVE Cat(_)
Cat(d) == IF d = <<>> THEN <<>> ELSE Cat(SubSeq(d, 1, Len(d) - 1)) \o d[Len(d)].t
Words(d) == Cat(d)
(* The whole derivation scored at once, feature by feature. *)
Hist(ws, i) == LET all == <<0>> \o [k \in 1..Len(ws) |-> LmWord(ws[k])] IN [k \in 1..MinN(C.m.lm.o - 1, i) |-> all[i - k + 1]]
LmWhole(ws, done) == SumSeq([i \in 1..Len(ws) |-> Lp(C.m, Hist(ws, i), LmWord(ws[i]))]) + (IF done THEN Lp(C.m, Hist(ws, Len(ws) + 1), 20) ELSE 0)
Ends(d) == [i \in 1..Len(d) |-> Len(Words(SubSeq(d, 1, i)))]
Whole(d, done) ==
  LET ws == Words(d) e == Ends(d) b(i) == IF i = 1 THEN 0 ELSE e[i - 1] pe(i) == IF i = 1 THEN 0 ELSE d[i - 1].r
      src(i) == Span(C, d[i].l, d[i].r) IN
  <<IF done THEN WordPen(C.m, Len(ws)) ELSE SumPen(C.m, Len(ws)), LmWhole(ws, done),
    -SumSeq([i \in 1..Len(d) |-> ((e[i] - b(i)) * C.m.tl[1] + b(i) * C.m.tl[2]) % 4]),
    -SumSeq([i \in 1..Len(d) |-> C.m.j * Abs(d[i].l - pe(i) - 1)]),
    -SumSeq([i \in 1..Len(d) |-> ((d[i].r - d[i].l + 1) * C.m.sl[1] + (e[i] - b(i)) * C.m.sl[2] + J(C) * C.m.sl[3]) % 5]),
    SumSeq([i \in 1..Len(d) |-> Pt(C.m, src(i), d[i].t)[1]]), SumSeq([i \in 1..Len(d) |-> Pt(C.m, src(i), d[i].t)[2]]),
    SumSeq([i \in 1..Len(d) |-> Dict(C.m, src(i), d[i].t)])>>
Now == IF Complete(C, st) THEN AddV(acc, FinalComps(C.m, st)) ELSE acc
Score == Dot(C.w, Now)
ScoresAdd == Now = Whole(der, Complete(C, st))
Bounded == /\ st \in DOMAIN D.best /\ Dot(C.w, acc) <= D.best[st]
           /\ der # <<>> => \E t \in D.T : t.q = st /\ t.l = der[Len(der)].l /\ t.r = der[Len(der)].r /\ t.t = der[Len(der)].t
(* Every best score is that of a derivation: it is reached by a best step.     *)
Attained == \A q \in DOMAIN D.best : \/ q = Start(C) /\ D.best[q] = Init0(C)
                                     \/ \E t \in D.T : t.q = q /\ D.best[t.p] + t.d = D.best[q]
CoversOnce == /\ Cardinality(st.c) = SumSeq([i \in 1..Len(der) |-> der[i].r - der[i].l + 1])
              /\ st.c = UNION {der[i].l..der[i].r : i \in 1..Len(der)} /\ st.n = Len(Words(der))
Promise ==
  LET ws == Words(der) IN
  /\ C.mode \in {"ref", "ver"} => Prefix(ws, C.ref) /\ (Complete(C, st) => ws = C.ref)
  /\ C.mode = "prefix" => LET n == MinN(Len(ws), Len(C.ref)) IN
       /\ \A i \in 1..n : ws[i] = C.ref[i] \/ (i = Len(C.ref) /\ ~C.blank /\ StrPrefix(C.ref[i], ws[i]))
       /\ Complete(C, st) => Len(ws) >= Len(C.ref)
  /\ C.mode = "plain" => \A k \in DOMAIN C.cons :
       /\ \A i \in 1..Len(der) : der[i].l <= k[2] /\ k[1] <= der[i].r => <<der[i].l, der[i].r>> = k /\ der[i].t = C.cons[k]
(* Plain and prefix requests never get stuck (single words always have an option). *)
NeverStuck == C.mode \in {"plain", "prefix"} /\ ~Complete(C, st) => Trans(C, st) # {}
==============================================================================
