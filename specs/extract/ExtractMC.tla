----------------------------- MODULE ExtractMC -----------------------------
(* All alignments of the given shapes with all limits: the extracted pairs   *)
(* against the textbook definition; one generated test for each.             *)
EXTENDS Extract, TLC, Json
CONSTANTS Shapes, Maxes, Gen
VARIABLES m, p, hist
vars == <<m, p, hist>>
Mats(sh) == {[I |-> sh[1], J |-> sh[2], c |-> c] : c \in [1..sh[1] -> [1..sh[2] -> {0, 1}]]}
NoM == [I |-> 0, J |-> 0, c |-> <<>>]
Init == m = NoM /\ p = [max |-> 0, mono |-> FALSE, cons |-> FALSE, spur |-> FALSE] /\ hist = <<>>
Next == /\ hist = <<>>
        /\ \E s \in Shapes : \E x \in Mats(s) : m' = x
        /\ \E mono, cons, spur \in BOOLEAN, k \in Maxes : p' = [max |-> k, mono |-> mono, cons |-> cons, spur |-> spur]
        /\ hist' = <<[op |-> "extract", m |-> m', p |-> p'], [op |-> "brf", m |-> m', p |-> p']>>
Spec == Init /\ [][Next]_vars
Emit == Gen => PrintT("BEH " \o ToJson(hist'))
Inv == hist # <<>> =>
    LET ps == Pairs(m, p) gs == Segs(m, p) free == UnlinkedSrc(m) ft == UnlinkedTrg(m)
        all == {q \in (1..m.I) \X (1..m.I) \X (1..m.J) \X (1..m.J) : q[1] <= q[2] /\ q[3] <= q[4]}
        within == {q \in all : TrgLen(m, p, q[3], q[4]) <= p.max /\ (p.cons => q[2] - q[1] < p.max)}
        tight == {q \in within : q[1] \notin free /\ q[2] \notin free} IN
    /\ \A q \in ps : Consistent(m, q) /\ q \in within
    \* all pairs without unlinked source words at the edges, unless they leave words of the source out of the whole target
    /\ p.mono \/ \A q \in tight : Consistent(m, q) /\ (Whole(m, q[3], q[4]) => q[1] = 1 /\ q[2] = m.I) => q \in ps
    /\ p.mono => ps \subseteq Pairs(m, [p EXCEPT !.mono = FALSE])
    \* with unlinked words only attached at one edge, every consistent pair that takes all or none of them is found
    /\ \A g \in gs : \A i \in 1..m.I : Cardinality({q \in g : i \in q[1]..q[2]}) = 1
    /\ \A g \in gs : \A j \in 1..m.J : Cardinality({q \in g : j \in q[3]..q[4]}) = 1
    /\ (<<1, m.I, 1, m.J>> \in ps /\ m.I > 0) => {<<1, m.I, 1, m.J>>} \in gs
=============================================================================
