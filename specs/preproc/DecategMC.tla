------------------------------ MODULE DecategMC ------------------------------
(* A sentence is categorized and translated by segments, in any order, words of a segment keeping theirs: the decategorizer
   gives back each word of the source. *)
EXTENDS Preproc, TLC, Json
CONSTANTS MaxLen, Vocab
Voc == {<<97>>, <<53>>, <<49, 50>>, <<52, 53>>, <<97, 49>>, <<120, 50, 121>>}      \* a 5 12 45 a1 x2y
V == IF Vocab = "small" THEN {<<97>>, <<53>>, <<49, 50>>, <<52, 53>>} ELSE Voc
VARIABLES src, done, trg, want, segs, cuts
vars == <<src, done, trg, want, segs, cuts>>
Init == src = <<>> /\ done = {} /\ trg = <<>> /\ want = <<>> /\ segs = <<>> /\ cuts = <<>>
AddWord == /\ segs = <<>> /\ Len(src) < MaxLen
           /\ \E w \in V : src' = Append(src, w)
           /\ UNCHANGED <<done, trg, want, segs, cuts>>
Translate == \E a \in DOMAIN src : \E b \in a..Len(src) :
               /\ (a..b) \cap done = {}
               /\ done' = done \cup (a..b)
               /\ want' = want \o SubSeq(src, a, b)
               /\ trg' = trg \o MapS(Categ, SubSeq(src, a, b))
               /\ segs' = Append(segs, <<a, b>>)
               /\ cuts' = Append(cuts, Len(trg) + b - a + 1)
               /\ UNCHANGED src
Next == AddWord \/ Translate
Spec == Init /\ [][Next]_vars
Restored == Decateg(src, trg, segs, cuts) = want
\* without information about the alignment nothing is changed
Kept == /\ Decateg(src, trg, <<>>, <<>>) = trg
        /\ segs # <<>> => Decateg(src, trg, Tail(segs), cuts) = trg
Idem == \A k \in DOMAIN src : Categ(Categ(src[k])) = Categ(src[k]) /\ (IsCateg(src[k]) \/ Trans(src[k]) = Categ(src[k]))
Emit == (done' = DOMAIN src /\ segs' # segs) => PrintT("BEH " \o ToJson([src |-> src, trg |-> trg', segs |-> segs', cuts |-> cuts']))
=============================================================================
