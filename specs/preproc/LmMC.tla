-------------------------------- MODULE LmMC --------------------------------
(* Counting n-grams sentence by sentence, or in chunks which are merged, is the same; the counts give proper distributions. *)
EXTENDS Preproc, TLC
CONSTANTS MaxSents, MaxLen, N
W == {<<97>>, <<98>>}
Sents == UNION {[1..k -> W] : k \in 0..MaxLen}
VARIABLES corpus, lm, a, b
vars == <<corpus, lm, a, b>>
E == [x \in {} |-> 0]
Init == corpus = <<>> /\ lm = E /\ a = E /\ b = E
Train(s) == /\ Len(corpus) < MaxSents
            /\ corpus' = Append(corpus, s)
            /\ lm' = BagPlus(lm, BagOf(Grams(s, N)))
            /\ \/ a' = BagPlus(a, BagOf(Grams(s, N))) /\ b' = b          \* a chunk
               \/ b' = BagPlus(b, BagOf(Grams(s, N))) /\ a' = a          \* another chunk
Next == \E s \in Sents : Train(s)
Spec == Init /\ [][Next]_vars
Same == lm = LmOf(corpus, N) /\ BagPlus(a, b) = lm
Total == LmTotal(lm) = FoldLeft(LAMBDA n, s : n + Len(s) + 1, 0, corpus)
H == {g \in DOMAIN lm : Len(g) < N /\ Len(g) >= 1 /\ g[Len(g)] # EOS}
Proper == /\ \A h \in H : h # <<BOS>> => SumBag(lm, {g \in DOMAIN lm : Len(g) = Len(h) + 1 /\ Front(g) = h}) = lm[h]
          /\ \A g \in DOMAIN lm : \A q \in 0..4 : LmProb(lm, LmTotal(lm), g, q) \in 0..K
          /\ \A h \in {<<>>} \cup H : LET T == {g \in DOMAIN lm : Len(g) = 1}
                                         p == SumBag([g \in T |-> LmProb(lm, LmTotal(lm), h \o g, 4)], T)
                                     IN lm # E => (p \in (K - 10)..K \/ (h = <<BOS>> /\ p = 0))
=============================================================================
