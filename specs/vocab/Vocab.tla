------------------------------- MODULE Vocab -------------------------------
(* The vocabularies: sets of entries [w |-> word, i |-> index] that are       *)
(* bijections. Kinds of vocabulary:                                           *)
(*  "voc" source or target words of translation models (GIZA files "i w"),    *)
(*  "lm"  words of language models (files "w i"), "enc" the plain encoder.    *)
(* A file is a sequence of lines and a line a sequence of tokens; numbers in  *)
(* it are given with their value in nums (text -> value).                     *)
EXTENDS Integers, Sequences, FiniteSets
NoIdx == 99999999
Entry(w, i) == [w |-> w, i |-> i]
Reserved(k) == CASE k = "voc" -> {Entry("NULL", 0), Entry("UNKNOWN_WORD", 1), Entry("<UNUSED_WORD>", 2)}
                 [] k = "lm" -> {Entry("<unk>", 0), Entry("<s>", 1), Entry("</s>", 2), Entry("<sp_sym1>", 3)}
                 [] OTHER -> {}
Bijection(m) == \A x, y \in m : (x.w = y.w) = (x.i = y.i)
Used(m) == {x.i : x \in m}
Known(m, w) == \E x \in m : x.w = w
Code(m, w) == (CHOOSE x \in m : x.w = w).i
HasName(m, i) == \E x \in m : x.i = i
Name(m, i) == (CHOOSE x \in m : x.i = i).w
\* The entry replaces whatever was known of the word and of the index
Bind(m, w, i) == {x \in m : x.w # w /\ x.i # i} \cup {Entry(w, i)}
\* Index that a new word may receive: the next one; if the indices in use have
\* gaps, any that is not in use
First(k) == IF k = "enc" THEN 1 ELSE 0
Contiguous(k, m) == Used(m) = First(k)..(First(k) + Cardinality(m) - 1)
NewIdx(k, m, i) == i \notin Used(m) /\ (Contiguous(k, m) => i = First(k) + Cardinality(m))
\* Words added one after the other with the given indices
RECURSIVE AddAll(_, _, _, _)
AddAll(m, ws, is, n) == IF n > Len(ws) THEN m ELSE AddAll(IF Known(m, ws[n]) THEN m ELSE Bind(m, ws[n], is[n]), ws, is, n + 1)
RECURSIVE AddOk(_, _, _, _, _)
AddOk(k, m, ws, is, n) == \/ n > Len(ws)
                          \/ /\ IF Known(m, ws[n]) THEN is[n] = Code(m, ws[n]) ELSE NewIdx(k, m, is[n])
                             /\ AddOk(k, IF Known(m, ws[n]) THEN m ELSE Bind(m, ws[n], is[n]), ws, is, n + 1)
\* Loading: lines of one token are ignored, lines of more than three are an error
RECURSIVE LoadVoc(_, _, _)
LoadVoc(m, f, n) == IF n > Len(f) THEN [ok |-> TRUE, m |-> m]
                    ELSE IF Len(f[n].t) > 3 THEN [ok |-> FALSE, m |-> m]
                    ELSE LoadVoc(IF Len(f[n].t) >= 2 THEN Bind(m, f[n].t[2], f[n].i) ELSE m, f, n + 1)
RECURSIVE LoadEnc(_, _, _)
LoadEnc(m, f, n) == IF n > Len(f) THEN [ok |-> TRUE, m |-> m] ELSE LoadEnc(Bind(m, f[n].t[1], f[n].i), f, n + 1)
Load(k, f) == IF k = "voc" THEN LoadVoc(Reserved(k), f, 1) ELSE LoadEnc(Reserved(k), f, 1)
\* Files of encoders that determine their contents
WellFormed(k, f) == k = "voc" \/ \A a, b \in DOMAIN f : a # b => f[a].t[1] # f[b].t[1] /\ f[a].i # f[b].i
\* A file with exactly the entries
FileOf(k, m, f) == /\ Len(f) = Cardinality(m) /\ \A n \in DOMAIN f : Len(f[n].t) = 2
                   /\ {Entry(f[n].t[IF k = "voc" THEN 2 ELSE 1], f[n].i) : n \in DOMAIN f} = m
=============================================================================
