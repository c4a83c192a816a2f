------------------------------- MODULE Ngram --------------------------------
(* n-gram counts and the language models built on them: training sentence by sentence, counting   *)
(* programs, interpolated (Jelinek-Mercer) probabilities with weights per order and bucket of the  *)
(* count of the history, model files, and models kept in a LevelDB data base.                      *)
(* Words are strings, an n-gram is a sequence of words, counts are integers (quarters of a count), *)
(* weights are thousandths, probabilities millionths.                                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

Unk == "<unk>"
Bos == "<s>"
Eos == "</s>"
Std == {Unk, Bos, Eos, "<sp_sym1>"}
None == "none"
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Butl(s) == SubSeq(s, 1, Len(s) - 1)

(* ---- n-grams of a sentence: the windows of <s> w1 .. wn </s>; single words include both marks ---- *)
Padded(s) == <<Bos>> \o s \o <<Eos>>
Grams(s, n) == LET p == Padded(s) IN [i \in {<<a, b>> \in (1..Len(p)) \X (1..Len(p)) : a <= b /\ b - a < n} |-> SubSeq(p, i[1], i[2])]
\* How often each n-gram occurs in a sentence.
Occ(s, n) == LET g == Grams(s, n) IN [x \in Range(g) |-> Cardinality({i \in DOMAIN g : g[i] = x})]
OccAll(ss, n) == FoldLeft(LAMBDA a, s : LET o == Occ(s, n) IN [x \in DOMAIN a \cup DOMAIN o |-> Get(a, x) + Get(o, x)], <<>>, ss)
\* Counts of histories that go with counts of n-grams: each occurrence of an n-gram is one of its history.
HistOf(c) == [h \in {Butl(g) : g \in DOMAIN c} |-> FoldSet(LAMBDA g, a : a + c[g], 0, {g \in DOMAIN c : Butl(g) = h})]

(* ---- models ---- *)
\* kind: "jm" in memory, "ldb" in a data base, "sm" (unsmoothed counts mixed with a constant).
NewW == [order |-> 3, nb |-> 1, bs |-> 0, w |-> <<500, 500, 500>>]
NewLm(kind) == [kind |-> kind, order |-> 3, wt |-> NewW, st |-> <<>>, src |-> <<>>, voc |-> Std, at |-> ""]
\* A data base has one count for each sequence of words, as n-gram and as history, and one for the empty history.
SrcOf(m, h) == IF m.kind = "ldb" THEN (IF h = <<>> THEN Get(m.src, h) ELSE Get(m.st, h)) ELSE Get(m.src, h)
AddGram(m, g, c) ==
  [m EXCEPT !.st = Put(@, g, Get(@, g) + c),
            !.src = IF m.kind = "ldb" /\ Len(g) > 1 THEN @ ELSE Put(@, Butl(g), Get(@, Butl(g)) + c),
            !.voc = @ \cup Range(g)]
\* A sentence counts c/4 times; n-grams whose count would not exceed lb/4 are left out.
TrainSent(m, s, c, lb) ==
  LET o == Occ(s, m.order) IN
  FoldSet(LAMBDA g, a : IF Get(m.st, g) + c * o[g] > lb THEN AddGram(a, g, c * o[g]) ELSE a, m, DOMAIN o)
Train(m, ss, c, lb) == FoldLeft(LAMBDA a, s : TrainSent(a, s, c, lb), m, ss)
\* The vocabulary stays; it is cleared on its own.
ClearLm(m) == [m EXCEPT !.st = <<>>, !.src = <<>>]
ClearVoc(m) == [m EXCEPT !.voc = Std]

(* ---- probabilities ---- *)
Millionth == 1000000
\* a/b in millionths, rounded down; b up to 2*10^8.
Ratio(a, b) ==
  LET d == FoldLeft(LAMBDA x, i : <<x[1] * 10 + (x[2] * 10) \div b, (x[2] * 10) % b>>, <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6>>) IN d[1]
RelFreq(m, h, w) == IF Get(m.st, h \o <<w>>) = 0 \/ SrcOf(m, h) = 0 THEN 0 ELSE Ratio(Get(m.st, h \o <<w>>), SrcOf(m, h))
\* Weight of the n-grams with history h: none is known for orders the weights do not reach.
Weight(m, h) ==
  LET nb == m.wt.nb
      b == IF nb = 1 THEN 0 ELSE LET x == SrcOf(m, h) \div (4 * m.wt.bs) IN IF x > nb - 1 THEN nb - 1 ELSE x
      i == Len(h) * nb + b + 1
  IN IF i \in DOMAIN m.wt.w THEN m.wt.w[i] ELSE 0
Mix(w, a, b) == (w * a + (1000 - w) * b) \div 1000
\* One mark for the beginning of the sentence is enough.
TrimHist(h) == IF Len(h) < 2 THEN h
               ELSE LET k == Cardinality({i \in DOMAIN h : \A j \in 1..i : h[j] = Bos}) IN IF k > 0 THEN SubSeq(h, k, Len(h)) ELSE h
Prob0(m) == Ratio(1, Cardinality(m.voc))
RECURSIVE ProbRec(_, _, _)
ProbRec(m, h, w) == IF h = <<>> THEN Mix(Weight(m, h), RelFreq(m, h, w), Prob0(m)) ELSE Mix(Weight(m, h), RelFreq(m, h, w), ProbRec(m, Tail(h), w))
ProbOf(m, h, w) ==
  LET t == TrimHist(h) IN
  IF m.kind = "sm" THEN Mix(900, RelFreq(m, t, w), IF SrcOf(m, <<>>) = 0 THEN 0 ELSE Ratio(4, SrcOf(m, <<>>)))
  ELSE ProbRec(m, t, w)
\* Words as the model knows them, and the history of each word of a sentence.
Known(m, w) == IF w \in m.voc THEN w ELSE Unk
StateAt(m, s, i) == LET p == [k \in 1..(m.order - 1) |-> Bos] \o s IN SubSeq(p, i, i + m.order - 2)
SentProbs(m, s) == LET k == [i \in DOMAIN s |-> Known(m, s[i])] IN
                   [i \in 1..Len(s) + 1 |-> ProbOf(m, StateAt(m, k, i), IF i = Len(s) + 1 THEN Eos ELSE k[i])]

(* ---- files ---- *)
\* Lines of an n-gram file: <<n-gram, count of the history, count>>, in order.
LinesOf(m) == {<<g, SrcOf(m, Butl(g)), m.st[g]>> : g \in {x \in DOMAIN m.st : m.st[x] > 0}}
MaxLen(S) == FoldSet(LAMBDA g, a : IF Len(g) > a THEN Len(g) ELSE a, 0, S)
LoadLm(m, ls, wt) ==
  LET gs == {ls[i][1] : i \in DOMAIN ls}
      Latest(P(_)) == CHOOSE i \in DOMAIN ls : P(i) /\ \A j \in DOMAIN ls : P(j) => j <= i
      n == MaxLen(gs)
      o == IF m.kind = "sm" THEN m.order ELSE wt.order
  IN [m EXCEPT !.st = [g \in gs |-> ls[Latest(LAMBDA i : ls[i][1] = g)][3]],
               !.src = [h \in {Butl(g) : g \in gs} |-> ls[Latest(LAMBDA i : Butl(ls[i][1]) = h)][2]],
               !.voc = @ \cup UNION {Range(g) : g \in gs}, !.wt = IF m.kind = "sm" THEN @ ELSE wt,
               !.order = IF m.kind = "sm" THEN (IF n = 0 THEN o ELSE n) ELSE IF n > o THEN n ELSE o]
\* The counting programs: counts of the corpus, in which the first occurrence of each word may stand for unknown words.
UnkFirst(ss) ==
  FoldLeft(LAMBDA a, s :
             LET r == FoldLeft(LAMBDA b, w : [seen |-> b.seen \cup {w}, out |-> Append(b.out, IF w \in b.seen THEN w ELSE Unk)], [seen |-> a.seen, out |-> <<>>], s)
             IN [seen |-> r.seen, out |-> Append(a.out, r.out)], [seen |-> {}, out |-> <<>>], ss).out
CountLines(ss, n) == LET c == OccAll(ss, n) hc == HistOf(c) IN {<<g, 4 * hc[Butl(g)], 4 * c[g]>> : g \in DOMAIN c}
Consistent(ls) == LET c == [g \in {l[1] : l \in ls} |-> (CHOOSE l \in ls : l[1] = g)[3]] IN
                  /\ Cardinality(ls) = Cardinality(DOMAIN c)
                  /\ \A l \in ls : l[2] = IF Len(l[1]) = 1 THEN FoldSet(LAMBDA g, a : a + c[g], 0, {g \in DOMAIN c : Len(g) = 1}) ELSE Get(c, Butl(l[1]))
=============================================================================
