-------------------------------- MODULE Mira --------------------------------
(* Translation quality scores (BLEU, WER, GTM, chrF) and the k-best MIRA      *)
(* algorithm which updates the weights of the log-linear model.               *)
(* Words are sequences of character codes, sentences are sequences of words.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
SumTo(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + f(i) IN s[n]
\* round(10^5 ln i)
LN == <<0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906, 270805, 277259, 283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220, 336730, 340120, 343399, 346574, 349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183, 395124, 397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439, 418965, 420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203, 439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435, 457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850, 472739, 473620, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203, 485981, 486753, 487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981, 497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625, 506260, 506890, 507517, 508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580, 514166, 514749, 515329, 515906, 516479, 517048, 517615, 518178, 518739, 519296, 519850, 520401, 520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750, 526269, 526786, 527300, 527811, 528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754, 534233, 534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268, 540717, 541165, 541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959, 546383, 546806, 547227, 547646, 548064, 548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343, 551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518, 554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350, 558725, 559099, 559471, 559842, 560212, 560580, 560947, 561313, 561677, 562040, 562402, 562762, 563121, 563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296, 566643, 566988, 567332, 567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373, 571703, 572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620, 574939, 575257, 575574, 575890, 576205, 576519, 576832, 577144, 577455, 577765, 578074, 578383, 578690, 578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711, 582008, 582305, 582600, 582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079, 586363, 586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715, 589990, 590263, 590536, 590808, 591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489, 593754, 594017, 594280, 594542, 594803, 595064, 595324, 595584, 595842, 596101, 596358, 596615, 596871, 597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146>>
(* ------------------------------- n-grams -------------------------------- *)
Grams(s, n) == {SubSeq(s, i, i + n - 1) : i \in 1..(Len(s) - n + 1)}
Occ(s, g) == Cardinality({i \in 1..(Len(s) - Len(g) + 1) : SubSeq(s, i, i + Len(g) - 1) = g})
Total(s, n) == IF n > Len(s) THEN 0 ELSE Len(s) - n + 1
SumOver(f(_), S_) == FoldSet(LAMBDA x, a : f(x) + a, 0, S_)
\* n-grams of c which are in r, each counted as often as it is there
Clipped(c, r, n) == SumOver(LAMBDA g : Min2(Occ(c, g), Occ(r, g)), Grams(c, n) \cap Grams(r, n))
(* --------------------------------- BLEU --------------------------------- *)
\* length of the translation, of the reference; matches and total of every order
Stats(c, r) == <<Len(c), Len(r)>> \o [k \in 1..8 |-> IF k % 2 = 1 THEN Clipped(c, r, (k + 1) \div 2) ELSE Total(c, k \div 2)]
Add(a, b) == [k \in 1..10 |-> a[k] + b[k]]
Ones == [k \in 1..10 |-> 1]
Zeros == [k \in 1..10 |-> 0]
RECURSIVE Corpus(_, _, _)
Corpus(cs, rs, n) == IF n = 0 THEN Zeros ELSE Add(Stats(cs[n], rs[n]), Corpus(cs, rs, n - 1))
\* logarithm (4 10^5 ln) of the brevity penalty; z: the value is zero
Bp4(st) == IF st[1] >= st[2] THEN [z |-> FALSE, v |-> 0]
           ELSE IF st[1] = 0 THEN [z |-> TRUE, v |-> 0]
           ELSE [z |-> FALSE, v |-> 400000 - ((400000 * st[2]) \div st[1])]
\* logarithm of BLEU; missing: value of the precision of an order without n-grams (1 or 0)
Bleu4(st, missing) ==
  LET bp == Bp4(st)
      zero == bp.z \/ \E n \in 1..4 : IF st[2 * n + 2] = 0 THEN missing = 0 ELSE st[2 * n + 1] = 0
  IN IF zero THEN [z |-> TRUE, v |-> 0]
     ELSE [z |-> FALSE, v |-> bp.v + SumTo(LAMBDA n : IF st[2 * n + 2] = 0 THEN 0 ELSE LN[st[2 * n + 1]] - LN[st[2 * n + 2]], 4)]
(* ------------------------------ edit distance --------------------------- *)
RECURSIVE Row(_, _, _, _)
Row(prev, cur, w, r) == LET j == Len(cur) IN
  IF j = Len(r) + 1 THEN cur
  ELSE Row(prev, Append(cur, Min2(Min2(prev[j + 1] + 1, cur[j] + 1), prev[j] + (IF w = r[j] THEN 0 ELSE 1))), w, r)
RECURSIVE Rows(_, _, _, _)
Rows(row, c, r, i) == IF i > Len(c) THEN row[Len(r) + 1] ELSE Rows(Row(row, <<i>>, c[i], r), c, r, i + 1)
Ed(c, r) == Rows([j \in 1..(Len(r) + 1) |-> j - 1], c, r, 1)
(* ---------------------------------- GTM --------------------------------- *)
\* Longest common n-grams first, each word at most once; the order among n-grams of the same length is free
Runs(c, r, n) == {p \in (1..Total(c, n)) \X (1..Total(r, n)) : SubSeq(c, p[1], p[1] + n - 1) = SubSeq(r, p[2], p[2] + n - 1)}
FreeRuns(c, r, n, s) == {p \in Runs(c, r, n) : /\ (p[1]..(p[1] + n - 1)) \cap s.c = {}
                                               /\ (p[2]..(p[2] + n - 1)) \cap s.r = {}}
Cover(s, p, n) == [c |-> s.c \cup (p[1]..(p[1] + n - 1)), r |-> s.r \cup (p[2]..(p[2] + n - 1))]
RECURSIVE Saturate(_, _, _, _)
Saturate(c, r, n, S) ==
  LET f == [s \in S |-> FreeRuns(c, r, n, s)]
      done == {s \in S : f[s] = {}}
      more == UNION {{Cover(s, p, n) : p \in f[s]} : s \in S \ done}
  IN IF more = {} THEN done ELSE done \cup Saturate(c, r, n, more)
RECURSIVE Greedy(_, _, _, _)
Greedy(c, r, n, S) ==
  IF n = 1
  THEN \* the matches of the remaining single words do not depend on their order
    LET left(q, u) == {i \in 1..Len(q) : i \notin u} IN
    {Cardinality(s.c) + SumOver(LAMBDA w : Min2(Cardinality({i \in left(c, s.c) : c[i] = w}), Cardinality({i \in left(r, s.r) : r[i] = w})),
                               {c[i] : i \in 1..Len(c)}) : s \in S}
  ELSE Greedy(c, r, n - 1, Saturate(c, r, n, S))
Matches(c, r) == IF c = <<>> \/ r = <<>> THEN {0} ELSE Greedy(c, r, Min2(Len(c), Len(r)), {[c |-> {}, r |-> {}]})
RECURSIVE CorpusMatches(_, _, _)
CorpusMatches(cs, rs, n) == IF n = 0 THEN {0} ELSE {a + b : a \in Matches(cs[n], rs[n]), b \in CorpusMatches(cs, rs, n - 1)}
(* --------------------------------- chrF --------------------------------- *)
RECURSIVE Chars(_)
Chars(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<32>> \o Chars(Tail(s))
\* 10^4 chrF (beta 3, up to 4 characters) of character sequences
ChrfOf(c, r) ==
  IF c = <<>> /\ r = <<>> THEN 10000
  ELSE IF c = <<>> \/ r = <<>> THEN 0
  ELSE LET k(n) == Clipped(c, r, n)
           p == SumTo(LAMBDA n : (k(n) * 40000) \div Total(c, n), Min2(4, Len(c))) \div (4 * Min2(4, Len(c)))
           q == SumTo(LAMBDA n : (k(n) * 40000) \div Total(r, n), Min2(4, Len(r))) \div (4 * Min2(4, Len(r)))
       IN IF p = 0 \/ q = 0 THEN 0 ELSE (10 * p * q) \div (9 * p + q)
Chrf(c, r) == ChrfOf(Chars(c), Chars(r))
(* --------------------------------- MIRA --------------------------------- *)
\* Weights are integers in units of 1/S. A problem: number of features nf, step size S/2^c, epochs J, patience E,
\* restarts R, weights w0 (quarters), sentences: sequences of [f (features), q0, q1 (quality for the parity of the
\* background corpus), s (quality)].
S == 4096
Dot(w, f) == SumTo(LAMBDA k : w[k] * f[k], Len(w))
Vec(n, f(_)) == [k \in 1..n |-> f(k)]
FirstMax(n, f(_)) == CHOOSE i \in 1..n : (\A j \in 1..n : f(j) <= f(i)) /\ (\A j \in 1..(i - 1) : f(j) < f(i))
\* One sentence: x = [bg, wt, tot, n, und]
Visit(P, sent, x) ==
  IF sent = <<>> THEN x
  ELSE LET q(i) == S * (IF x.bg = 1 THEN sent[i].q1 ELSE sent[i].q0)
           hope == FirstMax(Len(sent), LAMBDA i : Dot(x.wt, sent[i].f) + q(i))
           fear == FirstMax(Len(sent), LAMBDA i : Dot(x.wt, sent[i].f) - q(i))
           diff == TLCEval(Vec(Len(x.wt), LAMBDA k : sent[hope].f[k] - sent[fear].f[k]))
           loss == q(hope) - q(fear) - Dot(x.wt, diff)
           norm == Dot(diff, diff)
           cap == (S \div P.c2) * norm
           exact == norm = 0 \/ loss >= cap \/ loss % norm = 0
           eta == IF loss >= cap \/ norm = 0 THEN S \div P.c2 ELSE loss \div norm
           wt == TLCEval(Vec(Len(x.wt), LAMBDA k : x.wt[k] + eta * diff[k]))
       IN IF q(hope) <= q(fear) THEN x
          ELSE LET y == [x EXCEPT !.bg = (x.bg + hope) % 2] IN
               IF loss <= 0 THEN y
               ELSE [y EXCEPT !.wt = wt, !.tot = TLCEval(Vec(Len(wt), LAMBDA k : x.tot[k] + wt[k])), !.n = x.n + 1, !.und = x.und \/ ~exact]
RECURSIVE Visits(_, _, _, _)
Visits(P, ord, k, x) == IF k > Len(ord) THEN x ELSE Visits(P, ord, k + 1, TLCEval(Visit(P, P.sents[ord[k]], x)))
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
\* Quality of the translations with the greatest score; ties are free (the average is a quotient)
BestQ(sent, w) == IF sent = <<>> THEN {0} ELSE
  LET t == [i \in DOMAIN sent |-> Dot(w, sent[i].f)] IN {sent[i].s : i \in {i \in DOMAIN sent : \A j \in DOMAIN sent : t[j] <= t[i]}}
RECURSIVE Quality(_, _, _)
Quality(P, w, n) == IF n = 0 THEN {0} ELSE {a + b : a \in BestQ(P.sents[n], w), b \in Quality(P, w, n - 1)}
NoQ == -1000000
\* After an epoch: keep the best average; stop when there was no improvement for long
Judge(P, x, q, j) ==
  LET better == q > x.iq
      best == better /\ q > x.q
  IN [x EXCEPT !.iq = IF better THEN q ELSE x.iq, !.ij = IF better THEN j ELSE x.ij,
               !.q = IF best THEN q ELSE x.q, !.best = IF best THEN [tot |-> x.tot, n |-> x.n] ELSE x.best,
               !.stop = j - (IF better THEN j ELSE x.ij) > P.E]
W0(P) == [k \in 1..Len(P.w0) |-> P.w0[k] * (S \div 4)]
Start(P) == [bg |-> 0, wt |-> W0(P), tot |-> W0(P), n |-> 1, und |-> FALSE, iq |-> NoQ, ij |-> 0, q |-> NoQ,
             best |-> [tot |-> W0(P), n |-> 1], stop |-> FALSE]
Restart(P, x) == [x EXCEPT !.wt = W0(P), !.tot = W0(P), !.n = 1, !.iq = NoQ, !.ij = 0, !.stop = FALSE]
Epoch(P, j, x) ==
  LET ends == {Visits(P, o, 1, x) : o \in Perms(Len(P.sents))}
  IN UNION {{Judge(P, y, q, j) : q \in Quality(P, y.tot, Len(P.sents))} : y \in ends}
RECURSIVE Epochs(_, _, _)
Epochs(P, j, X) ==
  IF j = P.J THEN X
  ELSE LET go == {x \in X : ~x.stop /\ ~x.und} IN
       IF go = {} THEN X ELSE Epochs(P, j + 1, TLCEval((X \ go) \cup UNION {Epoch(P, j, x) : x \in go}))
RECURSIVE Runs_(_, _, _)
Runs_(P, r, X) == IF r = 0 THEN X ELSE Runs_(P, r - 1, Epochs(P, 0, {Restart(P, x) : x \in X}))
Results(P) == Runs_(P, P.R, {Start(P)})
=============================================================================
