----------------------------- MODULE PreprocTrace -----------------------------
EXTENDS Preproc, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, m
vars == <<h, l, m>>
Init == h \in DOMAIN Traces /\ l = 1 /\ m = <<>>
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
Tok == E.op = "tok" /\ Val(TokensOf(E.toks, E.parts)) /\ UNCHANGED m
LowerOp == E.op = "lower" /\ Val(E.words = LowerWords(E.parts)) /\ UNCHANGED m
Cat == E.op = "cat" /\ Val(E.words = Categorize(E.parts)) /\ UNCHANGED m
Rmx == E.op = "rmx" /\ Val(E.words = Plain(E.parts)) /\ UNCHANGED m
Dec == E.op = "decat" /\ Val(E.words = Decateg(E.src, E.trg, E.segs, E.cuts)) /\ UNCHANGED m
\* Training: the printed models hold the counts of the text
PairsOf(e) == IF e.kind = "rec" THEN Flat(MapS(LAMBDA r : MapS(LAMBDA x : <<<<Lower(x)>>, x>>, Words(r)), e.raw))
              ELSE Flat([k \in DOMAIN e.raw |-> DetokPairs(TransGroups(Groups(Words(e.raw[k]), e.toks[k])))])
SentsOf(e) == IF e.kind = "rec" THEN MapS(Words, e.raw)
              ELSE SelectSeq([k \in DOMAIN e.raw |-> DetokWords(TransGroups(Groups(Words(e.raw[k]), e.toks[k])))], LAMBDA s : s # <<>>)    \* no empty sentences
TmIs(list, b) == Len(list) = Cardinality(DOMAIN b) /\ {<<x.s, x.t, x.c>> : x \in ToSet(list)} = {<<k[1], k[2], b[k]>> : k \in DOMAIN b}
LmIs(list, b) == Len(list) = Cardinality(DOMAIN b) /\ {<<x.g, x.c>> : x \in ToSet(list)} = {<<k, b[k]>> : k \in DOMAIN b}
Train == /\ E.op = "train"
         /\ m' = TLCEval(LET b == LmOf(SentsOf(E), E.n) IN [tm |-> TmOf(PairsOf(E)), lm |-> b, n |-> E.n, tot |-> LmTotal(b), kind |-> E.kind])
         /\ E.kind = "det" => \A k \in DOMAIN E.raw : Val(TokensOf(E.toks[k], <<[t |-> "plain", s |-> E.raw[k]]>>))
         /\ Val(TmIs(E.tm, m'.tm)) /\ Val(LmIs(E.lm, m'.lm))
\* Loading: same counts, and the probabilities are those of the counts
Load == /\ E.op = "load" /\ UNCHANGED m
        /\ Val(TmIs(E.tm, m.tm)) /\ Val(LmIs(E.lm, m.lm))
        /\ E.tot0 = E.tot /\ E.tot = m.tot
        /\ E.n = m.n \/ \A g \in DOMAIN m.lm : Len(g) < m.n /\ E.n = Max({Len(x) : x \in DOMAIN m.lm})
        /\ \A x \in ToSet(E.pr) : Val(LET t == TmTot(m, x.s) IN
              IF t = 0 THEN x.p = 0 ELSE Abs(x.p * t - 1000000 * Get(m.tm, <<x.s, x.t>>)) <= t)
        /\ \A x \in ToSet(E.lp) : Val(Abs(x.p - LmProb(m.lm, m.tot, x.g, E.q)) <= 8 /\ Abs(x.r - LmRel(m.lm, m.tot, x.g)) <= 2)
\* Postprocessing
Out == /\ E.op = "out" /\ UNCHANGED m /\ Len(E.out) = Len(E.sents)
       /\ \A k \in DOMAIN E.sents : Val(IF m.kind = "rec" THEN RecaseOk(m, E.q, E.w, E.sents[k], E.out[k])
                                        ELSE DetokOk(m, E.q, E.w, E.sents[k], E.out[k]))
Clean == /\ E.op = "clean" /\ UNCHANGED m
         /\ \A k \in DOMAIN E.lens : Val((k \in ToSet(E.kept)) \in Keep(E.lens, k, E.lo, E.hi, E.d))
         /\ Val(\A i \in DOMAIN E.kept : E.kept[i] \in DOMAIN E.lens /\ (i > 1 => E.kept[i - 1] < E.kept[i]))
Wer == /\ E.op = "wer" /\ UNCHANGED m
       /\ E.words = FoldLeft(LAMBDA a, p : a + Len(p[1]), 0, E.pairs)
       /\ E.errs = FoldLeft(LAMBDA a, p : a + EditDist(p[1], p[2]), 0, E.pairs)
       /\ Val(Abs(E.wer * E.words - 10000 * E.errs) <= E.words)
Known_ == "exc" \notin DOMAIN E
Step == /\ l <= Len(Traces[h]) /\ Known_ /\ l' = l + 1 /\ h' = h
        /\ (Tok \/ LowerOp \/ Cat \/ Rmx \/ Dec \/ Train \/ Load \/ Out \/ Clean \/ Wer)
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
