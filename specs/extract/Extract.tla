------------------------------ MODULE Extract ------------------------------
(* Extraction of phrase pairs from a word-aligned sentence pair.             *)
(* m: link matrix [I, J, c], I source words by J target words.               *)
(* p: [mono, max, cons, spur]: monotone phrases only; maximum target length; *)
(*    is it a limit for the source too; do unlinked target words count for it*)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Link(m, i, j) == m.c[i][j] # 0
UnlinkedSrc(m) == {i \in 1..m.I : \A j \in 1..m.J : ~Link(m, i, j)}
UnlinkedTrg(m) == {j \in 1..m.J : \A i \in 1..m.I : ~Link(m, i, j)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Source words that one target word takes along: those linked to it and the *)
(* unlinked ones between them; optionally also all the unlinked ones just    *)
(* before, or all those just after.                                          *)
Choices(m, free, j) ==
    LET own == {i \in 1..m.I : Link(m, i, j)} IN
    IF own = {} THEN {{}}
    ELSE LET lo == MinOf(own) hi == MaxOf(own)
             base == own \cup {i \in free : i > lo /\ i < hi}
             left == {i \in free : i < lo /\ \A k \in i..(lo - 1) : k \in free}
             right == {i \in free : i > hi /\ \A k \in (hi + 1)..i : k \in free}
         IN {base, base \cup left, base \cup right}
(* Source sides of the target interval [a, b]: one choice for each word.     *)
RECURSIVE Sides(_, _, _, _)
Sides(m, free, a, b) == IF a > b THEN {{}}
                        ELSE LET r == Sides(m, free, a + 1, b) IN {x \cup y : x \in Choices(m, free, a), y \in r}

Contiguous(S) == S # {} /\ S = MinOf(S)..MaxOf(S)
Whole(m, a, b) == a = 1 /\ b = m.J
(* No link leaves the pair; in monotone mode no link crosses it.             *)
Closed(m, S, a, b) == \A j \in (1..m.J) \ (a..b) : \A i \in S : ~Link(m, i, j)
Monotone(m, S, a, b) == \A j \in (1..m.J) \ (a..b) : \A i \in (1..m.I) \ S :
                           Link(m, i, j) => ((i < MinOf(S)) <=> (j < a))
Valid(m, p, S, a, b) ==
    /\ IF Whole(m, a, b) THEN S = 1..m.I ELSE Contiguous(S)   \* the whole target takes the whole source
    /\ p.cons => Cardinality(S) <= p.max
    /\ Closed(m, S, a, b)
    /\ p.mono => (Whole(m, a, b) \/ Monotone(m, S, a, b))
TrgLen(m, p, a, b) == IF p.spur THEN b - a + 1 ELSE Cardinality((a..b) \ UnlinkedTrg(m))
Limit == 101          \* sentences of this length or longer are left out
Usable(m) == m.I < Limit /\ m.J < Limit
(* Pairs as <<first and last source word, first and last target word>>.      *)
Pairs(m, p) ==
    LET free == UnlinkedSrc(m)
        ivs == {<<a, b>> \in (1..m.J) \X (1..m.J) : a <= b /\ TrgLen(m, p, a, b) <= p.max}
    IN IF ~Usable(m) THEN {}
       ELSE UNION {{<<IF S = {} THEN 1 ELSE MinOf(S), IF S = {} THEN 0 ELSE MaxOf(S), x[1], x[2]>> :
                       S \in {s \in Sides(m, free, x[1], x[2]) : Valid(m, p, s, x[1], x[2])}} : x \in ivs}
(* Weight of a pair: mean number of times its linked word pairs are linked.  *)
RECURSIVE SumSeq(_, _, _)
SumSeq(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumSeq(f, a + 1, b)
LinkSum(m, q) == SumSeq([i \in q[1]..q[2] |-> SumSeq(m.c[i], q[3], q[4])], q[1], q[2])
LinkNum(m, q) == Cardinality({x \in (q[1]..q[2]) \X (q[3]..q[4]) : Link(m, x[1], x[2])})

(* Segmentation-based estimation: segmentations of the sentence pair into    *)
(* extractable pairs; the weight of a pair is the share of segmentations     *)
(* that contain it.                                                          *)
RECURSIVE SegsFrom(_, _, _, _)
SegsFrom(ps, n, i, T) ==
    IF i > n THEN (IF T = {} THEN {{}} ELSE {})
    ELSE UNION {{g \cup {q} : g \in SegsFrom(ps, n, q[2] + 1, T \ (q[3]..q[4]))} :
                  q \in {r \in ps : r[1] = i /\ (r[3]..r[4]) \subseteq T}}
Segs(m, p) == SegsFrom(Pairs(m, p), m.I, 1, 1..m.J)

(* The textbook definition.                                                  *)
Consistent(m, q) ==
    /\ \A i \in 1..m.I, j \in 1..m.J : Link(m, i, j) => ((i \in q[1]..q[2]) <=> (j \in q[3]..q[4]))
    /\ \E i \in q[1]..q[2], j \in q[3]..q[4] : Link(m, i, j)

(* ---- phrase pairs of words ------------------------------------------------*)
Tags == {"<digit>", "<number>", "<alfanum>"}
Words(s, a, b) == [k \in 1..(b - a + 1) |-> s[a + k - 1]]
Occ(s, w) == Cardinality({k \in DOMAIN s : s[k] = w})
(* Placeholders have to be kept: as many of each kind on both sides, or, in  *)
(* strict mode, phrases with placeholders have to be equal.                  *)
TagsOk(s, t, strict) ==
    IF strict THEN (\A w \in Tags : Occ(s, w) + Occ(t, w) = 0) \/ s = t
    ELSE \A w \in Tags : Occ(s, w) = Occ(t, w)
=============================================================================
