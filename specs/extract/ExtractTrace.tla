---------------------------- MODULE ExtractTrace ----------------------------
EXTENDS Extract, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, tab
vars == <<h, l, tab>>
(* tab: function from <<source phrase, target phrase>> to the scaled count   *)
Empty == [k \in {} |-> 0]
Init == h \in DOMAIN Traces /\ l = 1 /\ tab = Empty
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Abs(x) == IF x < 0 THEN 0 - x ELSE x
K == 100000
(* Recorded pairs: [s, t (words positions), w (weight times K)].             *)
AsPair(r) == <<r.s[1], r.s[Len(r.s)], r.t[1], r.t[Len(r.t)]>>
Proper(r) == Len(r.s) > 0 /\ Len(r.t) > 0 /\ r.s = [k \in 1..Len(r.s) |-> r.s[1] + k - 1] /\ r.t = [k \in 1..Len(r.t) |-> r.t[1] + k - 1]
Listed(out, set) == /\ \A k \in DOMAIN out : Proper(out[k])
                    /\ {AsPair(out[k]) : k \in DOMAIN out} = set
                    /\ Len(out) = Cardinality(set)
Extracted == /\ E.op = "extract" /\ UNCHANGED tab
             /\ Val(LET ps == Pairs(E.m, E.p) IN
                    /\ Listed(E.out, ps)
                    /\ \A k \in DOMAIN E.out : LET q == AsPair(E.out[k]) n == LinkNum(E.m, q) IN
                          Abs(E.out[k].w * n - K * LinkSum(E.m, q)) <= n)
Brf == /\ E.op = "brf" /\ UNCHANGED tab
       /\ Val(LET gs == IF Usable(E.m) THEN Segs(E.m, E.p) ELSE {} n == Cardinality(gs) IN
              /\ Listed(E.out, UNION gs)
              /\ \A k \in DOMAIN E.out : LET q == AsPair(E.out[k]) IN
                    Abs(E.out[k].w * n - K * Cardinality({g \in gs : q \in g})) <= 5 * n)
(* Training with one sentence pair: its extracted pairs, n times each.       *)
Weighted(e) ==
    IF e.brf
    THEN LET gs == Segs(e.m, e.p) n == Cardinality(gs)
         IN {<<q, (e.n * K * Cardinality({g \in gs : q \in g})) \div n>> : q \in UNION gs}
    ELSE {<<q, (e.n * K * LinkSum(e.m, q)) \div LinkNum(e.m, q)>> : q \in Pairs(e.m, e.p)}
Added(e, strict, filterBrf) ==
    LET w == Weighted(e)
        phr(x) == <<Words(e.s, x[1][1], x[1][2]), Words(e.t, x[1][3], x[1][4])>>
        ok == {x \in w : (e.brf /\ ~filterBrf) \/ TagsOk(phr(x)[1], phr(x)[2], strict)}
        keys == {phr(x) : x \in ok}
    IN [k \in keys |-> FoldSet(LAMBDA x, acc : acc + x[2], 0, {y \in ok : phr(y) = k})]
SumK(S, t) == FoldSet(LAMBDA x, acc : acc + t[x], 0, S)
Merge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> (IF k \in DOMAIN a THEN a[k] ELSE 0) + (IF k \in DOMAIN b THEN b[k] ELSE 0)]
(* A table as recorded: list of [s, t, cs, cst, ct].                         *)
Near(x, y) == Abs(x - y) <= 100
TableIs(rec, t) ==
    /\ {<<rec[k].s, rec[k].t>> : k \in DOMAIN rec} = DOMAIN t /\ Len(rec) = Cardinality(DOMAIN t)
    /\ \A k \in DOMAIN rec : LET r == rec[k] IN
         /\ Near(r.cst, t[<<r.s, r.t>>])
         /\ Near(r.cs, SumK({x \in DOMAIN t : x[1] = r.s}, t))
         /\ (r.ct >= 0 => Near(r.ct, SumK({x \in DOMAIN t : x[2] = r.t}, t)))
Train == /\ E.op = "train"
         /\ tab' = TLCEval(Merge(tab, Added(E, FALSE, FALSE)))
         /\ Val(TableIs(E.tab, tab'))
Same == /\ E.op \in {"table", "reload"} /\ UNCHANGED tab /\ Val(TableIs(E.tab, tab))
Clear == /\ E.op = "clear" /\ tab' = Empty /\ Val(E.tab = <<>>)
(* thot_gen_phr_model on a file of sentence pairs: strict filter.            *)
FileOf(f, strict, fb) == FoldLeft(LAMBDA acc, e : Merge(acc, Added(e, strict, fb)), Empty, f)
Prog == /\ E.op = "prog" /\ UNCHANGED tab
        /\ Val(E.rc = 0 /\ TableIs(E.tab, TLCEval(FileOf(E.f, TRUE, TRUE))))
File == /\ E.op = "file"
        /\ tab' = TLCEval(Merge(IF E.gen THEN Empty ELSE tab, FileOf(E.f, FALSE, FALSE)))
        /\ Val(TableIs(E.tab, tab'))
Step == l <= Len(Traces[h]) /\ (Extracted \/ Brf \/ Train \/ Same \/ Clear \/ Prog \/ File) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
