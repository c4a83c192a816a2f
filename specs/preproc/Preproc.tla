------------------------------- MODULE Preproc -------------------------------
(* Pre- and post-processing of text: tokenization, lowercasing, categorization and its inverse, XML annotations, the models
   of the detokenizer and of the recaser, the search for the best output under them, cleaning of corpora, word error rate.

   A text is a sequence of character codes and a word a non-empty text without white space. An annotated text is a sequence
   of parts: plain text, phrase pairs, length limits and forbidden words.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Flat(ss) == FlattenSeq(ss)
MapS(F(_), s) == [k \in DOMAIN s |-> F(s[k])]
----------------------------------------------------------------------------
(* Characters and words *)
Blank == {9, 32}
Digit(c) == c \in 48..57
Alnum(c) == Digit(c) \/ c \in 65..90 \/ c \in 97..122
LowerC(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Lower(s) == MapS(LowerC, s)
Words(s) ==
  LET step(acc, c) == IF c \in Blank THEN (IF acc.cur = <<>> THEN acc ELSE [cur |-> <<>>, out |-> Append(acc.out, acc.cur)])
                      ELSE [acc EXCEPT !.cur = Append(@, c)]
      r == FoldLeft(step, [cur |-> <<>>, out |-> <<>>], s)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

\* Numbers: [sign] digits [. [digits]] | [sign] . digits, [e [sign] digits]
NumStep(q, c) ==
  CASE q = 0 /\ c \in {43, 45} -> 1
    [] q \in {0, 1} /\ Digit(c) -> 2
    [] q \in {0, 1} /\ c = 46 -> 4
    [] q = 2 /\ Digit(c) -> 2
    [] q = 2 /\ c = 46 -> 3
    [] q \in {3, 4, 5} /\ Digit(c) -> 5
    [] q \in {2, 3, 5} /\ c \in {69, 101} -> 6
    [] q = 6 /\ c \in {43, 45} -> 7
    [] q \in {6, 7, 8} /\ Digit(c) -> 8
    [] OTHER -> 9
IsNumber(w) == FoldLeft(NumStep, 0, w) \in {2, 3, 5, 8}
AllDigits(w) == w # <<>> /\ \A k \in DOMAIN w : Digit(w[k])
NUMBER == <<60, 110, 117, 109, 98, 101, 114, 62>>
DIGIT == <<60, 100, 105, 103, 105, 116, 62>>
ALFANUM == <<60, 97, 108, 102, 97, 110, 117, 109, 62>>
COMMON == <<60, 99, 111, 109, 109, 111, 110, 95, 119, 111, 114, 100, 62>>
Categs == {NUMBER, DIGIT, ALFANUM, COMMON}
IsCateg(w) == w \in Categs
\* The category of a word, or the word itself
Categ(w) == IF AllDigits(w) THEN (IF Len(w) > 1 THEN NUMBER ELSE DIGIT)
            ELSE IF IsNumber(w) THEN NUMBER
            ELSE IF w # <<>> /\ Alnum(w[1]) /\ \E k \in DOMAIN w : Digit(w[k]) THEN ALFANUM
            ELSE w
\* Words of the models of the detokenizer: categories, and one symbol for all long words
Trans(w) == IF Categ(w) # w THEN Categ(w) ELSE IF Len(w) > 5 THEN COMMON ELSE w
----------------------------------------------------------------------------
(* Annotated text *)
gO == <<60, 112, 104, 114, 95, 112, 97, 105, 114, 95, 97, 110, 110, 111, 116, 62>>
gC == <<60, 47, 112, 104, 114, 95, 112, 97, 105, 114, 95, 97, 110, 110, 111, 116, 62>>
sO == <<60, 115, 114, 99, 95, 115, 101, 103, 109, 62>>
sC == <<60, 47, 115, 114, 99, 95, 115, 101, 103, 109, 62>>
tO == <<60, 116, 114, 103, 95, 115, 101, 103, 109, 62>>
tC == <<60, 47, 116, 114, 103, 95, 115, 101, 103, 109, 62>>
lO == <<60, 108, 101, 110, 103, 116, 104, 95, 108, 105, 109, 105, 116, 62>>
lC == <<60, 47, 108, 101, 110, 103, 116, 104, 95, 108, 105, 109, 105, 116, 62>>
fO == <<60, 102, 111, 114, 98, 105, 100, 100, 101, 110, 95, 119, 111, 114, 100, 115, 62>>
fC == <<60, 47, 102, 111, 114, 98, 105, 100, 100, 101, 110, 95, 119, 111, 114, 100, 115, 62>>
Tag(s) == [tag |-> TRUE, s |-> s]
Txt(s) == [tag |-> FALSE, s |-> s]
ItemsOf(p) == CASE p.t = "plain" -> <<Txt(p.s)>>
                [] p.t = "pair" -> <<Tag(gO), Tag(sO), Txt(p.x), Tag(sC), Tag(tO), Txt(p.y), Tag(tC), Tag(gC)>>
                [] p.t = "len" -> <<Tag(lO), Txt(p.s), Tag(lC)>>
                [] p.t = "forb" -> <<Tag(fO), Txt(p.s), Tag(fC)>>
Items(parts) == Flat(MapS(ItemsOf, parts))
\* Tokenization: the tokens spell the text, no token goes over white space or over the limits of an annotation, annotations
\* are tokens, and words, numbers and punctuation are separated
Chunks(parts) == LET C(it) == IF it.tag THEN <<it>> ELSE MapS(LAMBDA w : Txt(w), Words(it.s)) IN Flat(MapS(C, Items(parts)))
RECURSIVE CutsFrom(_, _)
CutsFrom(ss, n) == IF ss = <<>> THEN {} ELSE {n + Len(ss[1])} \cup CutsFrom(Tail(ss), n + Len(ss[1]))
Cuts(ss) == CutsFrom(ss, 0)
Punct == {33, 63, 40, 41}      \* ! ? ( )
Decimal(w) == Len(w) >= 3 /\ \E k \in 2..(Len(w) - 1) : w[k] \in {44, 46} /\ \A i \in DOMAIN w : i = k \/ Digit(w[i])
Known(ch) == ch.tag \/ Decimal(ch.s) \/ \A k \in DOMAIN ch.s : Alnum(ch.s[k]) \/ ch.s[k] \in Punct
Inner(ch) == IF ch.tag \/ Decimal(ch.s) THEN {} ELSE {k \in 1..(Len(ch.s) - 1) : Alnum(ch.s[k]) # Alnum(ch.s[k + 1])}
TokensOf(toks, parts) ==
  LET ch == Chunks(parts)
      st == [k \in 1..(Len(ch) + 1) |-> FoldLeft(LAMBDA a, x : a + Len(x.s), 0, SubSeq(ch, 1, k - 1))]
      cuts == Cuts(toks)
  IN /\ \A k \in DOMAIN toks : toks[k] # <<>> /\ \A i \in DOMAIN toks[k] : toks[k][i] \notin Blank
     /\ Flat(toks) = Flat([k \in DOMAIN ch |-> ch[k].s])
     /\ \A k \in DOMAIN ch : /\ st[k + 1] \in cuts
                             /\ Known(ch[k]) => {c - st[k] : c \in {x \in cuts : st[k] < x /\ x < st[k + 1]}} = Inner(ch[k])
LowerWords(parts) == Flat(MapS(LAMBDA it : IF it.tag THEN <<it.s>> ELSE Words(Lower(it.s)), Items(parts)))
Plain(parts) == Flat(MapS(LAMBDA p : CASE p.t = "plain" -> Words(p.s) [] p.t = "pair" -> Words(p.x) [] OTHER -> <<>>, parts))
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Paired(a, b) == \A c \in Categs : Count(a, c) = Count(b, c)
CategPart(p) ==
  CASE p.t = "plain" -> MapS(Categ, Words(p.s))
    [] p.t = "len" -> <<lO>> \o Words(p.s) \o <<lC>>
    [] p.t = "forb" -> <<fO>> \o Words(p.s) \o <<fC>>
    [] p.t = "pair" -> LET a == Words(p.x)
                           b == Words(p.y)
                           ok == Paired(MapS(Categ, a), MapS(Categ, b))
                       IN <<gO, sO>> \o (IF ok THEN MapS(Categ, a) ELSE a) \o <<sC, tO>> \o (IF ok THEN MapS(Categ, b) ELSE b) \o <<tC, gC>>
Categorize(parts) == Flat(MapS(CategPart, parts))
\* A category of the translation stands for the word of that category, and of the same order, of the aligned source segment
Decateg(src, trg, segs, cuts) ==
  LET Dec(p) ==
        IF ~IsCateg(trg[p]) \/ ~\E k \in DOMAIN cuts : p <= cuts[k] THEN trg[p]
        ELSE LET k == CHOOSE k \in DOMAIN cuts : p <= cuts[k] /\ \A j \in 1..(k - 1) : p > cuts[j]
                 left == IF k = 1 THEN 1 ELSE cuts[k - 1] + 1
                 ord == Cardinality({q \in left..(p - 1) : trg[q] = trg[p]})
                 Cand(i) == Categ(src[i]) = trg[p] /\ Cardinality({q \in segs[k][1]..(i - 1) : Categ(src[q]) = trg[p]}) = ord
             IN IF \E i \in segs[k][1]..segs[k][2] : Cand(i) THEN src[CHOOSE i \in segs[k][1]..segs[k][2] : Cand(i)] ELSE trg[p]
  IN IF segs = <<>> \/ Len(segs) # Len(cuts) THEN trg ELSE [p \in DOMAIN trg |-> Dec(p)]
----------------------------------------------------------------------------
(* Models: counts of pairs <<source words, target word>> and of n-grams *)
BagOf(s) == [x \in ToSet(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]
Get(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
SumBag(b, S) == FoldSet(LAMBDA x, a : a + b[x], 0, S)
BagPlus(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> Get(a, x) + Get(b, x)]
\* tokens of each word of a sentence
Groups(words, toks) ==
  LET st(k) == FoldLeft(LAMBDA a, w : a + Len(w), 0, SubSeq(words, 1, k))
      tt(j) == FoldLeft(LAMBDA a, w : a + Len(w), 0, SubSeq(toks, 1, j))
  IN [k \in DOMAIN words |-> SelectSeq([j \in DOMAIN toks |-> IF st(k - 1) < tt(j) /\ tt(j) <= st(k) THEN toks[j] ELSE <<>>], LAMBDA w : w # <<>>)]
TransGroups(gs) == [k \in DOMAIN gs |-> MapS(Trans, gs[k])]
\* adjacent categories would be confused
Separable(g) == ~\E j \in 1..(Len(g) - 1) : IsCateg(g[j]) /\ IsCateg(g[j + 1])
DetokPairs(g) == MapS(LAMBDA x : <<x, Flat(x)>>, SelectSeq(g, Separable))
DetokWords(g) == MapS(LAMBDA x : Flat(x), g)
BOS == <<60, 98, 111, 115, 62>>
EOS == <<60, 101, 111, 115, 62>>
Grams(s, n) == LET x == <<BOS>> \o s \o <<EOS>>
                   Of(i) == [k \in 1..(Len(x) - i + 1) |-> SubSeq(x, k, k + i - 1)]
               IN SelectSeq(Flat([i \in 1..n |-> IF i > Len(x) THEN <<>> ELSE Of(i)]), LAMBDA g : g # <<BOS>>)
LmOf(sents, n) == BagOf(Flat(MapS(LAMBDA s : Grams(s, n), sents)))
TmOf(pairs) == BagOf(pairs)
LmTotal(lm) == SumBag(lm, {g \in DOMAIN lm : Len(g) = 1})
----------------------------------------------------------------------------
(* Logarithms in units of 10^-4 *)
RECURSIVE Log2Int(_)
Log2Int(x) == IF x < 2 THEN 0 ELSE 1 + Log2Int(x \div 2)
RECURSIVE Frac(_, _)
Frac(y, n) == IF n = 0 THEN 0
              ELSE LET z == (y * y) \div 16384 IN IF z >= 32768 THEN 2^(n - 1) + Frac(z \div 2, n - 1) ELSE Frac(z, n - 1)
Ln(x) == LET e == Log2Int(x)
             y == IF e <= 14 THEN x * 2^(14 - e) ELSE x \div 2^(e - 14)
         IN ((e * 4096 + Frac(y, 12)) * 6931) \div 4096
----------------------------------------------------------------------------
(* Probabilities (in units of 10^-7) and scores *)
K == 10000000
LmRel(lm, N, g) == IF g = <<>> THEN K \div N
                   ELSE LET h == Front(g)
                            c == IF h = <<>> THEN N ELSE Get(lm, h)
                        IN IF c = 0 THEN 0 ELSE (Get(lm, g) * K) \div c
RECURSIVE LmProb(_, _, _, _)
LmProb(lm, N, g, q) == IF g = <<>> THEN LmRel(lm, N, g)
                       ELSE (q * LmRel(lm, N, g) + (4 - q) * LmProb(lm, N, Tail(g), q)) \div 4
\* m: model with tm, lm, n, tot; q: interpolation in quarters; w: weights
Hist(m, ws) == LET x == <<BOS>> \o ws IN SubSeq(x, IF Len(x) > m.n - 1 THEN Len(x) - m.n + 2 ELSE 1, Len(x))
LmLp(m, q, ws, w) == Ln(LmProb(m.lm, m.tot, Append(Hist(m, ws), w), q)) - Ln(K)
TmTot(m, s) == SumBag(m.tm, {x \in DOMAIN m.tm : x[1] = s})
Opts(m, s) == LET o == {x[2] : x \in {y \in DOMAIN m.tm : y[1] = s}} IN IF o = {} /\ Len(s) = 1 THEN {s[1]} ELSE o
TmLp(m, s, t) == IF TmTot(m, s) = 0 THEN -138155 ELSE Ln(m.tm[<<s, t>>]) - Ln(TmTot(m, s))
Ext(m, q, w, s, ws, t) == w[1] * TmLp(m, s, t) - 10000 * w[2] - 10000 * w[3] + w[4] * LmLp(m, q, ws, t)
End(m, q, w, ws) == w[4] * LmLp(m, q, ws, EOS)
MaxSpan == 7
\* Score of a sequence of <<source words, target word>>
RECURSIVE ScoreFrom(_, _, _, _, _)
ScoreFrom(m, q, w, steps, ws) == IF steps = <<>> THEN End(m, q, w, ws)
                                 ELSE Ext(m, q, w, steps[1][1], ws, steps[1][2]) + ScoreFrom(m, q, w, Tail(steps), Append(ws, steps[1][2]))
Score(m, q, w, steps) == ScoreFrom(m, q, w, steps, <<>>)
NoScore == -1000000000
MaxOf2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Best(_, _, _, _, _, _)
Best(m, q, w, toks, i, ws) ==
  IF i > Len(toks) THEN End(m, q, w, ws)
  ELSE FoldSet(LAMBDA l, a : LET s == SubSeq(toks, i, i + l - 1)
                             IN FoldSet(LAMBDA t, b : MaxOf2(b, Ext(m, q, w, s, ws, t) + Best(m, q, w, toks, i + l, Append(ws, t))), a, Opts(m, s)),
               NoScore, 1..(IF Len(toks) - i + 1 < MaxSpan THEN Len(toks) - i + 1 ELSE MaxSpan))
Tol == 300
\* Best output: of the recaser, word by word; of the detokenizer, given the words (groups of tokens) of the output
BestSteps(m, q, w, toks, steps) ==
  /\ \A k \in DOMAIN steps : steps[k][2] \in Opts(m, steps[k][1])
  /\ Score(m, q, w, steps) + Tol >= Best(m, q, w, toks, 1, <<>>)
RecaseOk(m, q, w, toks, out) == Len(out) = Len(toks) /\ BestSteps(m, q, w, toks, [k \in DOMAIN toks |-> <<<<toks[k]>>, out[k]>>])
DetokOk(m, q, w, toks, out) ==
  /\ Flat(out) = Flat(toks)
  /\ Cuts(out) \subseteq Cuts(toks)
  /\ LET g == TransGroups(Groups(out, toks)) IN BestSteps(m, q, w, MapS(Trans, toks), [k \in DOMAIN g |-> <<g[k], Flat(g[k])>>])
----------------------------------------------------------------------------
(* Cleaning of a corpus given the lengths of its pairs of sentences: the difference of lengths may be d standard deviations
   from the mean, of the pairs with the same source length if they are at least ten *)
Sq(x) == x * x
Sum(F(_), S) == FoldSet(LAMBDA k, a : a + F(k), 0, S)
InRange(lens, k, S, d) ==
  LET Df(i) == lens[i][1] - lens[i][2]
      n == Cardinality(S)
      s == Sum(Df, S)
      v == n * Sum(LAMBDA i : Sq(Df(i)), S) - Sq(s)
      x == Sq(n * Df(k) - s)
  IN IF x = Sq(d) * v THEN (IF v = 0 THEN {TRUE} ELSE {TRUE, FALSE}) ELSE {x < Sq(d) * v}
Keep(lens, k, lo, hi, d) ==
  LET same == {i \in DOMAIN lens : lens[i][1] = lens[k][1]}
  IN IF lens[k][1] < lo \/ lens[k][2] < lo \/ lens[k][1] > hi \/ lens[k][2] > hi THEN {FALSE}
     ELSE InRange(lens, k, IF Cardinality(same) >= 10 THEN same ELSE DOMAIN lens, d)
\* Edit distance, row by row
Row(r, row, c) == FoldLeft(LAMBDA a, j : Append(a, Min({row[j + 1] + 1, a[j] + 1, row[j] + IF r[j] = c THEN 0 ELSE 1})), <<row[1] + 1>>, [j \in 1..Len(r) |-> j])
EditDist(r, s) == LET rows == FoldLeft(LAMBDA row, c : Row(r, row, c), [j \in 1..(Len(r) + 1) |-> j - 1], s) IN rows[Len(r) + 1]
=============================================================================
