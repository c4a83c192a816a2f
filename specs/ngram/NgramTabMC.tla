----------------------------- MODULE NgramTabMC -----------------------------
EXTENDS NgramTab, TLC, Json
\* Both kinds of table, fed with the n-grams of sentences, agree.
VARIABLES v, d, hist, n
vars == <<v, d, hist, n>>
Init == v = NewTab("vec") /\ d = NewTab("ldb") /\ hist = <<>> /\ n = 0
\* All windows of a sentence, up to three words, each once.
Wins(s) == {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) : i <= j /\ j - i < 3}
Feed(m, s) == FoldSet(LAMBDA w, a : Incr(a, SubSeq(s, w[1], w[2] - 1), s[w[2]], 4), m, Wins(s))
Sents == {<<x>> : x \in {4, 300}} \cup {<<x, y>> : x, y \in {4, 300}} \cup {<<4, 300, 64600>>, <<300, 300, 300>>}
Train(s) == n < 3 /\ n' = n + 1 /\ v' = Feed(v, s) /\ d' = Feed(d, s) /\ hist' = Append(hist, s)
Next == \E s \in Sents : Train(s)
Spec == Init /\ [][Next]_vars
Words == {4, 300, 64600}
\* The counts of n-grams agree; the count of a history is larger in the data base when sentences end in it.
Agree == /\ Grams(v) = Grams(d) /\ \A g \in Grams(v) : v.st[g] = d.st[g] /\ SrcOf(d, Butl(g)) >= SrcOf(v, Butl(g))
         /\ SrcOf(v, <<>>) = SrcOf(d, <<>>)
Histories == \A g \in Grams(v) : Len(g) > 1 => SrcOf(v, Butl(g)) = FoldSet(LAMBDA x, a : a + v.st[x], 0, OfSrc(v, Butl(g)))
Total == SrcOf(v, <<>>) = FoldSet(LAMBDA g, a : a + v.st[g], 0, {g \in Grams(v) : Len(g) = 1})
Both == \A t \in Words : CTrg(v, t) = CTrg(d, t) /\ \A g \in OfTrg(v, t) : v.st[g] <= CTrg(v, t)
Emit == PrintT("BEH " \o ToJson(hist'))
=============================================================================
