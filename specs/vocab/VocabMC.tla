------------------------------ MODULE VocabMC -------------------------------
(* Every history of at most Depth operations on one vocabulary of each kind.  *)
EXTENDS Vocab, TLC, Json
CONSTANTS Words, Depth, Gen
VARIABLES v, m, file, hist
vars == <<v, m, file, hist>>
Kind == IF v = "s" THEN "voc" ELSE IF v = "ienc" THEN "lm" ELSE "enc"
Ln(w, i) == IF Kind = "voc" THEN [t |-> <<ToString(i), w>>, i |-> i] ELSE [t |-> <<w, ToString(i)>>, i |-> i]
Files == {<<>>, <<Ln("a", 4)>>, <<Ln("a", 5), Ln("b", 4)>>, <<Ln("b", 7), Ln("c", 5)>>}
         \cup (IF Kind # "voc" THEN {} ELSE
               {<<Ln("a", 2), Ln("b", 3), Ln("c", 4)>>, <<Ln("a", 3), Ln("a", 4)>>, <<Ln("a", 3), Ln("b", 3)>>, <<Ln("a", 4), Ln("b", 3), Ln("a", 3)>>,
                <<[t |-> <<"9">>, i |-> 0], [t |-> <<"4", "c", "12">>, i |-> 4]>>, <<Ln("b", 3), [t |-> <<"4", "c", "1", "2">>, i |-> 4], Ln("a", 5)>>})
RECURSIVE Lines(_)
Lines(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<Ln(x.w, x.i)>> \o Lines(s \ {x})
Next_(k, s) == IF Contiguous(k, s) THEN First(k) + Cardinality(s) ELSE CHOOSE i \in 0..20 : i \notin Used(s)
Init == v \in {"s", "ienc", "enc"} /\ m = Reserved(Kind) /\ file = <<>> /\ hist = <<>>
Op(e) == hist' = IF Gen THEN Append(hist, e) ELSE <<Len(hist)>>
N == IF Gen THEN Len(hist) ELSE IF hist = <<>> THEN 0 ELSE hist[1] + 1
Step == \/ \E w \in Words : m' = (IF Known(m, w) THEN m ELSE Bind(m, w, Next_(Kind, m))) /\ file' = file /\ Op([op |-> "add", v |-> v, ws |-> <<w>>])
        \/ \E a \in (IF Gen THEN {"a"} ELSE Words), b \in Words : LET x == IF Known(m, a) THEN m ELSE Bind(m, a, Next_(Kind, m))
                               IN m' = (IF Known(x, b) THEN x ELSE Bind(x, b, Next_(Kind, x))) /\ file' = file /\ Op([op |-> "add", v |-> v, ws |-> <<a, b>>])
        \/ \E f \in Files : file' = f /\ m' = m /\ Op([op |-> "write", f |-> "f", lines |-> f])
        \/ file' = Lines(m) /\ m' = m /\ Op([op |-> "print", v |-> v, f |-> "f"])
        \/ m' = Load(Kind, file).m /\ file' = file /\ Op([op |-> "load", v |-> v, f |-> "f"])
        \/ m' = Reserved(Kind) /\ file' = file /\ Op([op |-> "clear", v |-> v])
Qs == LET Q(e) == e @@ [v |-> v] IN
      <<Q([op |-> "size"]), Q([op |-> "codes", ws |-> <<"a">>]), Q([op |-> "codes", ws |-> <<"b">>]), Q([op |-> "codes", ws |-> <<"c">>])>>
      \o [i \in 1..9 |-> Q([op |-> "names", is |-> <<i - 1>>])]
Next == N < Depth /\ v' = v /\ Step
Spec == Init /\ [][Next]_vars
Emit == (Gen /\ Len(hist') = Depth) => PrintT("BEH " \o ToJson(<<[op |-> "write", f |-> "f", lines |-> <<>>]>> \o hist' \o Qs))
Inv == /\ Bijection(m)
       /\ \A x \in m : Name(m, Code(m, x.w)) = x.w /\ Code(m, Name(m, x.i)) = x.i
       /\ FileOf(Kind, m, Lines(m)) /\ Load(Kind, Lines(m)) = [ok |-> TRUE, m |-> m]
\* a word keeps its index as long as nothing is loaded or cleared
Stable == [][(file' = file /\ m' # m /\ m' # Load(Kind, file).m /\ m' # Reserved(Kind)) => m \subseteq m']_vars
=============================================================================
