------------------------------ MODULE MiraTrace ------------------------------
EXTENDS Mira, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, bg, st
vars == <<h, l, bg, st>>
\* Background corpus of BLEU in units of 1/4096, statistics of the last sentence
U == 4096
Fresh == [k \in 1..10 |-> U]
Init == h \in DOMAIN Traces /\ l = 1 /\ bg = Fresh /\ st = <<>>
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Near(a, b, d) == Abs(a - b) <= d
\* a score, or f times a score, is given as 10^5 ln (BLEU) or 10^5 times the value
IsBleu(o, b, f) == ~o.bad /\ IF b.z \/ f = 0 THEN o.z ELSE ~o.z /\ Near(4 * o.v, b.v + 4 * LN[f], 40)
IsWer(o, ed, n) == ~o.bad /\ ~o.z /\ IF n = 0 THEN o.v = 0 ELSE Near(o.v * n, (n - ed) * 100000, n)
IsGtm(o, M, a, b, f) == ~o.bad /\ ~o.z /\ \E m \in M : IF m = 0 THEN o.v = 0 ELSE Near(o.v * (a + b), 200000 * m * f, a + b)
IsChrf(o, x, f) == ~o.bad /\ ~o.z /\ Near(o.v, 10 * x * f, 60 * f + 1)
RECURSIVE Len_(_)
Len_(s) == IF s = <<>> THEN 0 ELSE Len(s[1]) + Len_(Tail(s))
RECURSIVE Eds(_, _, _)
Eds(cs, rs, n) == IF n = 0 THEN 0 ELSE Ed(cs[n], rs[n]) + Eds(cs, rs, n - 1)
Sent == /\ E.op = "sent" /\ UNCHANGED <<bg, st>>
        /\ LET o == E.out IN
           Val(CASE E.s = "bleu" -> IsBleu(o, Bleu4(Add(Stats(E.c, E.r), Ones), 1), 1)
                 [] E.s = "wer" -> IsWer(o, Ed(E.c, E.r), Len(E.r)) \/ (Len(E.r) = 0 /\ o.v = 0)
                 [] E.s = "gtm" -> IsGtm(o, Matches(E.c, E.r), Len(E.c), Len(E.r), 1)
                 [] E.s = "chrf" -> IsChrf(o, Chrf(E.c, E.r), 1))
CorpusIs(s, o, cs, rs) ==
  CASE s = "bleu" -> IsBleu(o, Bleu4(Corpus(cs, rs, Len(cs)), 1), 1)
    [] s = "wer" -> IsWer(o, Eds(cs, rs, Len(cs)), Len_(rs))
    [] s = "gtm" -> IsGtm(o, CorpusMatches(cs, rs, Len(cs)), Len_(cs), Len_(rs), 1)
    [] s = "chrf" -> IF cs = <<>> THEN o.v = 0 /\ ~o.bad
                     ELSE IsChrf(o, SumTo(LAMBDA n : Chrf(cs[n], rs[n]), Len(cs)) \div Len(cs), 1)
Corp == E.op = "corpus" /\ UNCHANGED <<bg, st>> /\ Val(CorpusIs(E.s, E.out, E.cs, E.rs))
\* Scores for the weight updater are those of the sentence within the background corpus, times the length of the
\* reference (of both for BLEU)
Bg == /\ E.op = "bg" /\ UNCHANGED bg
      /\ LET o == E.out
             s == TLCEval(Stats(E.c, E.r))
             both == [k \in 1..10 |-> (s[k] * U + bg[k]) \div U]
         IN /\ Val(CASE E.s = "bleu" -> IsBleu(o, Bleu4(both, 1), both[2]) /\ E.st = s
                     [] E.s = "wer" -> ~o.bad /\ (IF Len(E.r) = 0 THEN o.v = 0 ELSE o.v = (Len(E.r) - Ed(E.c, E.r)) * 100000)
                     [] E.s = "gtm" -> IsGtm(o, Matches(E.c, E.r), Len(E.c), Len(E.r), Len(E.r))
                     [] E.s = "chrf" -> IF E.r = <<>> THEN o.v = 0 /\ ~o.bad ELSE IsChrf(o, Chrf(E.c, E.r), Len(E.r)))
            /\ st' = IF E.s = "bleu" THEN s ELSE st
Reset == E.op = "reset" /\ UNCHANGED st /\ bg' = IF E.s = "bleu" THEN Fresh ELSE bg
Upd == /\ E.op = "upd" /\ UNCHANGED st
       /\ bg' = IF E.s = "bleu" /\ st # <<>> THEN [k \in 1..10 |-> (bg[k] * E.d) \div 4 + st[k] * U] ELSE bg
\* The programs
File == /\ E.op = "file" /\ UNCHANGED <<bg, st>>
        /\ IF E.prog = "scorer"
           THEN IF Len(E.cs) # Len(E.rs) THEN Val(~E.ok /\ E.rc \in 1..127)
                ELSE E.ok /\ Val(CorpusIs(E.s, E.out[1], E.cs, E.rs))
           ELSE IF Len(E.cs) < Len(E.rs) THEN Val(~E.ok /\ E.rc \in 1..127)
           ELSE IF Len(E.cs) > Len(E.rs) THEN Val(E.ok \/ E.rc \in 1..127)     \* not determined
           ELSE LET s == TLCEval(Corpus(E.cs, E.rs, Len(E.cs)))
                    p(n) == IF s[2 * n + 2] = 0 THEN 0 ELSE (100000 * s[2 * n + 1]) \div s[2 * n + 2]
                IN E.ok /\ IF E.prog = "bleu"
                   THEN /\ Val(IsBleu(E.out[1], Bleu4(s, 0), 1))
                        /\ Val(IsBleu(E.out[2], Bp4(s), 1))
                        /\ \A n \in 1..4 : Val(~E.out[n + 2].bad /\ Near(E.out[n + 2].v, p(n), 2))
                   ELSE Val(~E.out[1].bad /\ Near(E.out[1].v, p(1) \div 16 + p(2) \div 8 + p(3) \div 4 + p(4) \div 2, 6))
\* The weight updater returns the average of the weights of one of its epochs which has the greatest quality
Prob == [c2 |-> 2^E.c, J |-> E.J, E |-> E.E, R |-> E.R, w0 |-> E.w0, sents |-> E.sents]
Update == /\ E.op = "mira" /\ UNCHANGED <<bg, st>>
          /\ LET R == TLCEval(Results(Prob)) IN
             Val(\/ \E x \in R : x.und
                 \/ /\ ~E.bad /\ Len(E.w) = Len(E.w0) /\ E.resets >= 1
                    /\ \E x \in R : \A k \in DOMAIN E.w : Near(E.w[k] * x.best.n, x.best.tot[k] * 64, x.best.n + 1))
\* The program passes the included variables of the n-best lists to the updater and prints the weights, 0 for excluded ones
Incl(v) == IF E.va = <<>> THEN v ELSE LET I == {k \in 1..Min2(Len(v), Len(E.va)) : E.va[k] # 0} IN
           [n \in 1..Cardinality(I) |-> v[CHOOSE k \in I : Cardinality({i \in I : i < k}) = n - 1]]
Program == /\ E.op = "llwu" /\ UNCHANGED <<bg, st>>
           /\ IF E.va # <<>> /\ Len(E.va) # Len(E.w0) THEN Val(E.rc \in 1..127 /\ ~E.found)
              ELSE /\ Val(E.rc = 0 /\ E.found /\ Len(E.got) = 1)
                   /\ LET g == E.got[1] IN
                      /\ Val(g.refs = [i \in DOMAIN E.sents |-> E.sents[i].ref])
                      /\ Val(g.nb = [i \in DOMAIN E.sents |-> [k \in DOMAIN E.sents[i].n |-> E.sents[i].n[k].t]])
                      /\ Val(g.f = [i \in DOMAIN E.sents |-> [k \in DOMAIN E.sents[i].n |-> Incl(E.sents[i].n[k].f)]])
                      /\ Val(g.w = Incl(E.w0))
                   /\ Val(Len(E.w) = Len(E.w0))
                   /\ \A k \in DOMAIN E.w : LET in == E.va = <<>> \/ E.va[k] # 0
                                                pos == Cardinality({i \in 1..k : E.va = <<>> \/ E.va[i] # 0})
                                            IN Val(E.w[k] = IF in THEN 250 * E.w0[k] + 1000 * pos ELSE 0)
Step == l <= Len(Traces[h]) /\ (Sent \/ Corp \/ Bg \/ Reset \/ Upd \/ File \/ Update \/ Program) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
