------------------------------- MODULE Metadata -------------------------------
(* Input sentences that carry translation constraints.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

PA == "<phr_pair_annot>"     PE == "</phr_pair_annot>"
SA == "<src_segm>"      SE == "</src_segm>"
TA == "<trg_segm>"      TE == "</trg_segm>"
Tags == {PA, PE, SA, SE, TA, TE}
Blanks == {" ", "\t"}

(* An input is a sequence of pieces: tags, blanks and parts of words. Tokens   *)
(* are the tags and the words between tags and blanks.                         *)
Tokens(pieces, xml) ==
    LET flush(s) == IF s.cur = "" THEN s.toks ELSE Append(s.toks, s.cur)
        step(s, x) == IF x \in Blanks THEN [toks |-> flush(s), cur |-> ""]
                      ELSE IF xml /\ x \in Tags THEN [toks |-> Append(flush(s), x), cur |-> ""]
                      ELSE [toks |-> s.toks, cur |-> s.cur \o x]
    IN flush(FoldLeft(step, [toks |-> <<>>, cur |-> ""], pieces))

(* First position of tag x from position i on; 0 if there is none.             *)
Find(tk, x, i) == LET S == {k \in i..Len(tk) : tk[k] = x} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A k2 \in S : k <= k2
Is(tk, i, x) == i <= Len(tk) /\ tk[i] = x
(* <phr_pair_annot> <src_segm> words </src_segm> <trg_segm> words </trg_segm> </phr_pair_annot> *)
AnnotEnds(tk, i) ==
    IF ~(Is(tk, i, PA) /\ Is(tk, i + 1, SA)) THEN 0
    ELSE LET e == Find(tk, SE, i + 2) IN
         IF e <= i + 2 \/ ~Is(tk, e + 1, TA) THEN 0
         ELSE LET f == Find(tk, TE, e + 2) IN
              IF f <= e + 2 \/ ~Is(tk, f + 1, PE) THEN 0 ELSE f + 1
(* Constraints: set of [a, b, t], source span and its translation.             *)
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(tk, i, words, cs) ==
    IF i > Len(tk) THEN [words |-> words, cs |-> cs]
    ELSE LET n == AnnotEnds(tk, i) IN
         IF n = 0 THEN ParseFrom(tk, i + 1, Append(words, tk[i]), cs)
         ELSE LET e == Find(tk, SE, i + 2)
                  src == SubSeq(tk, i + 2, e - 1)
                  trg == SubSeq(tk, e + 2, n - 2)
              IN ParseFrom(tk, n + 1, words \o src, cs \cup {[a |-> Len(words) + 1, b |-> Len(words) + Len(src), t |-> trg]})
ParseXml(pieces) == ParseFrom(Tokens(pieces, TRUE), 1, <<>>, {})

(* JSON input: the sentence, and texts with their translations, which are      *)
(* located in order, each after the one before. What comes after a text that   *)
(* cannot be located is dropped.                                               *)
Words(pieces) == Tokens(pieces, FALSE)
At(s, w, i) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE Locate(_, _, _)
Locate(s, prs, i) ==
    IF prs = <<>> THEN {}
    ELSE LET w == prs[1][1] S == {k \in i..Len(s) : At(s, w, k)} IN
         IF S = {} THEN {}
         ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y
              IN {[a |-> k, b |-> k + Len(w) - 1, t |-> prs[1][2]]} \cup Locate(s, Tail(prs), k + Len(w))
Has(f) == f.k = "str"
PairsOf(doc) == LET good(x) == x.k = "obj" /\ Has(x.o) /\ Has(x.t) /\ Words(x.o.v) # <<>> /\ Words(x.t.v) # <<>>
                IN [k \in DOMAIN SelectSeq(doc.tags, good) |-> <<Words(SelectSeq(doc.tags, good)[k].o.v), Words(SelectSeq(doc.tags, good)[k].t.v)>>]
ParseJson(doc) ==
    IF doc.k # "obj" THEN [words |-> Words(doc.text), cs |-> {}]
    ELSE LET s == IF Has(doc.src) THEN Words(doc.src.v) ELSE <<>> IN [words |-> s, cs |-> Locate(s, PairsOf(doc), 1)]

(* ---- queries -----------------------------------------------------------------*)
Spans(cs) == {<<c.a, c.b>> : c \in cs}
TransFor(cs, a, b) == LET S == {c \in cs : c.a = a /\ c.b = b} IN IF S = {} THEN <<>> ELSE (CHOOSE c \in S : TRUE).t
Affected(cs, a, b) == \E c \in cs : a <= c.b /\ b >= c.a
(* A (partial) translation: source segments in order of their translations,    *)
(* end of each translation, words.                                             *)
TransOf(d, k) == SubSeq(d.trg, (IF k = 1 THEN 0 ELSE d.cuts[k - 1]) + 1, d.cuts[k])
Touch(d, k, c) == d.seg[k][1] <= c.b /\ d.seg[k][2] >= c.a
Meets(d, k, c) == d.seg[k] = <<c.a, c.b>> /\ TransOf(d, k) = c.t
Respects(cs, d) == \A c \in cs : \A k \in DOMAIN d.seg : Touch(d, k, c) => Meets(d, k, c)
(* Violations that have to be noticed at once: the first word of a constraint  *)
(* is translated otherwise.                                                    *)
Broken(cs, d) == \E c \in cs : \E k \in DOMAIN d.seg : c.a >= d.seg[k][1] /\ c.a <= d.seg[k][2] /\ ~Meets(d, k, c)
Complete(d, n) == \A i \in 1..n : \E k \in DOMAIN d.seg : i >= d.seg[k][1] /\ i <= d.seg[k][2]

(* ---- writing an annotated sentence --------------------------------------------*)
RECURSIVE AnnotFrom(_, _, _)
AnnotFrom(s, cs, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET S == {c \in cs : c.a = i} IN
         IF S = {} THEN <<s[i]>> \o AnnotFrom(s, cs, i + 1)
         ELSE LET c == CHOOSE x \in S : TRUE
              IN <<PA, SA>> \o SubSeq(s, c.a, c.b) \o <<SE, TA>> \o c.t \o <<TE, PE>> \o AnnotFrom(s, cs, c.b + 1)
Spaced(tk) == FlattenSeq([k \in DOMAIN tk |-> IF k = 1 THEN <<tk[k]>> ELSE <<" ", tk[k]>>])
=============================================================================
