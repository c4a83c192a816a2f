------------------------------- MODULE MiraMC --------------------------------
(* What = "score": all pairs of short sentences. What = "mira": small problems, any order of the visits.  *)
EXTENDS Mira, Json
CONSTANTS What, MaxLen, Words, Gen
VARIABLES c, r, P, x, j
vars == <<c, r, P, x, j>>
Sents == UNION {[1..n -> Words] : n \in 0..MaxLen}
WordOf(w) == IF w = 3 THEN <<97, 98>> ELSE <<96 + w>>
Txt(s) == [i \in DOMAIN s |-> WordOf(s[i])]
Feats == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 2>>}
Cands == [f : Feats, q0 : {0, 1}, q1 : {1}, s : {0, 1}]
\* problems: one sentence with two or three candidates, a second with two fixed ones or none
S2 == {<<>>, <<[f |-> <<0, 0>>, q0 |-> 1, q1 |-> 0, s |-> 1], [f |-> <<0, 1>>, q0 |-> 0, q1 |-> 1, s |-> 0]>>}
Probs == {[c2 |-> k, J |-> 2, E |-> 0, R |-> 1, w0 |-> w, sents |-> <<<<a, b>>, z>>] : k \in {1, 4}, w \in {<<0, 0>>, <<4, 2>>}, a, b \in Cands, z \in S2}
None == [none |-> TRUE]
Init == \/ What = "score" /\ c \in Sents /\ r \in Sents /\ P = None /\ x = None /\ j = 0
        \/ What = "mira" /\ c = <<>> /\ r = <<>> /\ P \in Probs /\ x = Start(P) /\ j = 0
Next == \/ What = "score" /\ Len(c) > 0 /\ c' = Tail(c) /\ UNCHANGED <<r, P, x, j>>
        \/ What = "mira" /\ j < 4 /\ \E i \in DOMAIN P.sents : x' = Visit(P, P.sents[i], x) /\ j' = j + 1 /\ UNCHANGED <<c, r, P>>
Spec == Init /\ [][Next]_vars
Score == What = "score" =>
  LET a == TLCEval(Txt(c))
      b == TLCEval(Txt(r))
      s == TLCEval(Stats(a, b))
      m == Bleu4(s, 1)
      M == TLCEval(Matches(a, b))
  IN /\ \A n \in 1..4 : s[2 * n + 1] <= s[2 * n + 2] /\ s[2 * n + 1] = Clipped(b, a, n)
     /\ m.v <= 0 /\ (a = b => ~m.z /\ m.v = 0)
     /\ (~m.z /\ m.v = 0 /\ Len(a) \in 1..4) => a = b \/ Len(a) > Len(b)
     /\ Bleu4(Add(s, Ones), 1).v <= 0 /\ ~Bleu4(Add(s, Ones), 1).z
     \* a corpus of twice the same pair scores as the pair
     /\ Bleu4(Add(s, s), 1).z = m.z /\ Abs(Bleu4(Add(s, s), 1).v - m.v) <= 8
     /\ Ed(a, b) = Ed(b, a) /\ (Ed(a, b) = 0 <=> a = b)
     /\ Ed(a, b) >= Abs(Len(a) - Len(b)) /\ Ed(a, b) <= (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
     /\ Ed(a, b) >= (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) - s[3]
     /\ \A k \in 0..Len(a) : Ed(a, b) <= Ed(SubSeq(a, 1, k), b) + Len(a) - k
     \* at least one order of the choices, at most the common words
     /\ M # {} /\ M \subseteq 0..s[3] /\ M = Matches(b, a)
     /\ (s[3] > 0) => \E k \in M : k >= 1
     /\ a = b => M = {Len(a)}
     /\ Chrf(a, b) \in 0..10000 /\ ((Chrf(a, b) >= 9999) => (a = b \/ Chars(a) = Chars(b) \/ Len(Chars(b)) > 0))
     /\ a = b => Chrf(a, b) >= 9998
\* a step of the updater: the margin violation of the pair is closed, or reduced by the capped step
Steps == [][What = "mira" /\ x'.n = x.n + 1 =>
   LET d == [k \in DOMAIN x.wt |-> x'.wt[k] - x.wt[k]] IN
   /\ x'.tot = [k \in DOMAIN x.wt |-> x.tot[k] + x'.wt[k]]
   /\ d # [k \in DOMAIN x.wt |-> 0] \/ \E i \in DOMAIN P.sents : \E u, v \in DOMAIN P.sents[i] : P.sents[i][u].f = P.sents[i][v].f
   \* never longer than the cap allows
   /\ \A k \in DOMAIN d : Abs(d[k]) <= (S \div P.c2) * 2]_vars
\* the results of the whole algorithm: quality of the best average, never fewer updates than one
Whole == (What = "mira" /\ j = 0) => LET R == TLCEval(Results(P)) IN
   /\ R # {}
   /\ \A y \in R : y.und \/ (y.q # NoQ /\ y.best.n >= 1 /\ y.best.n <= 1 + P.J * Len(P.sents) /\ y.q \in Quality(P, y.best.tot, Len(P.sents)))
Cand(k) == [f |-> k.f, q0 |-> k.q0, q1 |-> k.q1, s |-> k.s]
ScoreOps(s) == <<[op |-> "sent", s |-> s, c |-> Txt(c'), r |-> Txt(r), sp |-> 0], [op |-> "bg", s |-> s, c |-> Txt(c'), r |-> Txt(r), sp |-> 1],
                 [op |-> "upd", s |-> s, d |-> 2], [op |-> "bg", s |-> s, c |-> Txt(r), r |-> Txt(c'), sp |-> 0],
                 [op |-> "corpus", s |-> s, cs |-> <<Txt(c'), Txt(r)>>, rs |-> <<Txt(r), Txt(r)>>, sp |-> 2],
                 [op |-> "corpus", s |-> s, cs |-> <<Txt(c')>>, rs |-> <<Txt(r)>>, sp |-> 0]>>
Emit == Gen => IF What = "score" THEN PrintT("BEH " \o ToJson(ScoreOps("bleu") \o ScoreOps("wer") \o ScoreOps("gtm") \o ScoreOps("chrf")))
        ELSE j = 0 => PrintT("BEH " \o ToJson(<<[op |-> "mira", c |-> IF P.c2 = 1 THEN 0 ELSE 2, g |-> 2, J |-> 2, E |-> 0, R |-> 1, w0 |-> P.w0, sents |-> P.sents,
                                                  closed |-> P.sents[2] # <<>> \/ x'.bg = 1]>>))
=============================================================================
