---------------------------- MODULE AlignmentMC ----------------------------
(* All pairs of small matrices: set properties of the operations, and one    *)
(* generated test for each pair and operation.                               *)
EXTENDS Alignment, TLC, Json
CONSTANTS Shapes, Gen
VARIABLES a, b, ph, hist
vars == <<a, b, ph, hist>>
Mats(sh) == {[I |-> sh[1], J |-> sh[2], c |-> c] : c \in [1..sh[1] -> [1..sh[2] -> {0, 1}]]}
All == UNION {Mats(s) : s \in Shapes}
Ops == {"and", "or", "xor", "sum", "sub", "sym1", "sym2", "grd"}
None == Zero(0, 0)
Init == a = None /\ b = None /\ ph = 0 /\ hist = <<>>
Load == /\ ph = 0 /\ ph' = 1
        /\ \E x \in All : a' = x
        /\ \E s \in Shapes : \E y \in Mats(s) : b' = y
        /\ Gen \/ Same(a', b')
        /\ hist' = <<[op |-> "load", r |-> 0, m |-> a'], [op |-> "load", r |-> 1, m |-> b']>>
Do == /\ ph = 1 /\ ph' = 2 /\ UNCHANGED <<a, b>>
      /\ \E o \in Ops : hist' = hist \o <<[op |-> "op", o |-> o, r |-> 0, q |-> 1]>>
One == /\ ph = 1 /\ ph' = 3 /\ UNCHANGED <<a, b>>
       /\ \E o \in {"flip", "transpose", "tovec", "reset", "set", "copy"} : hist' = hist \o <<[op |-> o, r |-> 0]>>
Self == /\ ph = 1 /\ ph' = 4 /\ UNCHANGED <<a, b>>
        /\ \E o \in Ops : hist' = hist \o <<[op |-> "op", o |-> o, r |-> 0, q |-> 0]>>
Next == Load \/ (Gen /\ (Do \/ One \/ Self))
Spec == Init /\ [][Next]_vars
Emit == (Gen /\ ph' >= 2) => PrintT("BEH " \o ToJson(hist'))
View == <<a, b, ph>>

Inv == ph = 1 /\ Same(a, b) =>
    LET A == Links(a) C == Links(b) s1 == Sym(a, b, 1) s2 == Sym(a, b, 2) g == Grd(a, b) IN
    /\ Links(And(a, b)) = A \cap C /\ Links(Or(a, b)) = A \cup C
    /\ Links(Xor(a, b)) = (A \cup C) \ (A \cap C) /\ Links(Minus(a, b)) = A \ C
    /\ Links(Plus(a, b)) = A \cup C
    /\ Links(Flip(a)) = ((1..a.I) \X (1..a.J)) \ A
    /\ Links(Transp(a)) = {<<x[2], x[1]>> : x \in A} /\ Transp(Transp(a)) = a
    /\ \A s \in {s1, s2, g} : (A \cap C) \subseteq Links(s) /\ Links(s) \subseteq (A \cup C)
    /\ s1 = Sym(b, a, 1) /\ s2 = Sym(b, a, 2)          \* symmetrisation is symmetric
    /\ Links(s2) \subseteq (A \cup C)
    /\ Sym(a, a, 1) = a /\ Sym(a, a, 2) = a /\ Grd(a, a) = a
    \* nothing can be added any more
    /\ \A x \in (A \cup C) \ Links(s1) : ~Addable(s1, Or(a, b), x, 1)
    /\ \A x \in (A \cup C) \ Links(s2) : ~Addable(s2, Or(a, b), x, 2)
    \* grow-diag-final leaves no word unlinked that either alignment links
    /\ \A x \in A \cup C : RowUsed(g, x[1]) /\ ColUsed(g, x[2])
    /\ (VecOk(a) => FromVec(Zero(a.I, a.J), ToVec(a)) = a)
=============================================================================
