------------------------------ MODULE NgramTab ------------------------------
(* The tables under the language models: counts of n-grams and of histories, by word numbers, in    *)
(* memory ("vec") or in a LevelDB data base ("ldb"). Counts are quarters.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Butl(s) == SubSeq(s, 1, Len(s) - 1)
NewTab(kind) == [kind |-> kind, st |-> <<>>, src |-> <<>>]
\* In a data base each sequence has one count, except for the empty one.
One(m, s) == m.kind = "ldb" /\ s # <<>>
SrcOf(m, s) == IF One(m, s) THEN Get(m.st, s) ELSE Get(m.src, s)
SetSrc(m, s, c) == IF One(m, s) THEN [m EXCEPT !.st = Put(@, s, c)] ELSE [m EXCEPT !.src = Put(@, s, c)]
SetSt(m, s, t, c) == [m EXCEPT !.st = Put(@, Append(s, t), c)]
AddEntry(m, s, t, cs, ct) == SetSt(SetSrc(m, s, cs), s, t, ct)
\* One more n-gram; in a data base, its history is counted by the n-gram that ends there.
Incr(m, s, t, c) == LET x == SetSt(m, s, t, Get(m.st, Append(s, t)) + c) IN IF One(m, s) THEN x ELSE SetSrc(x, s, SrcOf(x, s) + c)
Grams(m) == {g \in DOMAIN m.st : m.st[g] > 0}
OfSrc(m, s) == IF s = <<>> THEN {} ELSE {g \in Grams(m) : Len(g) = Len(s) + 1 /\ Butl(g) = s}
OfTrg(m, t) == {g \in Grams(m) : Len(g) > 1 /\ g[Len(g)] = t}
CTrg(m, t) == FoldSet(LAMBDA g, a : a + m.st[g], 0, OfTrg(m, t))
Size(m) == Cardinality(DOMAIN m.st)
=============================================================================
