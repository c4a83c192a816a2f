------------------------------- MODULE NgramMC ------------------------------
(* Laws over all short training histories. *)
EXTENDS Ngram, TLC, Json
CONSTANTS Words, MaxLen2, Order, Calls
VARIABLES m, d, hist
vars == <<m, d, hist>>
Sents == UNION {[1..k -> Words] : k \in 0..MaxLen2}
Wt == [order |-> Order, nb |-> 2, bs |-> 1, w |-> [i \in 1..2 * Order |-> 300 + 100 * i]]
Start(kind) == [NewLm(kind) EXCEPT !.order = Order, !.wt = Wt]
Init == m = Start("jm") /\ d = Start("ldb") /\ hist = <<>>
Do(s, c) == /\ m' = TLCEval(TrainSent(m, s, c, 0)) /\ d' = TLCEval(TrainSent(d, s, c, 0)) /\ hist' = Append(hist, <<s, c>>)
Next == Len(hist) < Calls /\ \E s \in Sents, c \in {4, 8} : Do(s, c)
Spec == Init /\ [][Next]_vars
\* The data base has the same counts as the memory although it keeps one count for each sequence.
SameCounts == /\ m.st = d.st /\ m.voc = d.voc
              /\ \A h \in DOMAIN m.src \cup {Butl(g) : g \in DOMAIN m.st} : SrcOf(m, h) = SrcOf(d, h)
Weighted(k) == FoldLeft(LAMBDA a, e : a \o [i \in 1..e[2] \div 4 |-> e[1]], <<>>, k)
\* Training is counting the corpus, in any order, at once or one by one; a weight of two is two sentences.
IsCount == LET c == OccAll(Weighted(hist), Order) IN m.st = [g \in DOMAIN c |-> 4 * c[g]] /\ m.src = [h \in DOMAIN HistOf(m.st) |-> HistOf(m.st)[h]]
Orderless == LET r == [i \in DOMAIN hist |-> hist[Len(hist) + 1 - i]]
                 x == FoldLeft(LAMBDA a, e : TrainSent(a, e[1], e[2], 0), Start("jm"), r) IN x = m
\* Written and read again, the model is the same.
Lines == SetToSeq(LinesOf(m))
RoundTrip == LET x == LoadLm(NewLm("jm"), Lines, m.wt) IN x.st = m.st /\ x.src = m.src /\ x.voc = m.voc /\ x.order = m.order
ProgramsAgree == hist # <<>> => Range(Lines) = CountLines(Weighted(hist), Order)
FileConsistent == Consistent(Range(Lines))
\* Probabilities of all words add up to one after any history seen in training.
SumsToOne == \A h \in {x \in DOMAIN m.src : m.src[x] > 0} :
               LET t == FoldSet(LAMBDA w, a : a + ProbOf(m, h, w), 0, m.voc) IN t <= Millionth /\ t > Millionth - 10 * Cardinality(m.voc) * Order
Bounded == \A h \in DOMAIN m.src, w \in m.voc : ProbOf(m, h, w) \in 0..Millionth
\* Longer runs of marks for the beginning of the sentence change nothing.
Marks == \A w \in m.voc : ProbOf(m, <<Bos, Bos, Bos>>, w) = ProbOf(m, <<Bos>>, w)
Emit == (IF hist' # <<>> /\ Len(hist') >= 1 THEN PrintT("BEH " \o ToJson(hist')) ELSE TRUE)
=============================================================================
