----------------------------- MODULE SimplexMC ------------------------------
(* All sequences of values of a bounded length, over a few values.            *)
EXTENDS Simplex, TLC, Json
CONSTANTS Ns, Vals, Max, P, Q, Gen
VARIABLES s, vals, seen, hist
vars == <<s, vals, seen, hist>>
X0(n) == [d \in Dim(n) |-> 100000 * d]
Init == \E n \in Ns : s = Start(n, 1, X0(n)) /\ vals = <<>> /\ seen = {} /\ hist = <<>>
\* values of a function: the same at the same point (the generated tests do without)
Next == /\ s.ph # "end" /\ Len(vals) < Max
        /\ \E y \in Vals :
             /\ Gen \/ \A z \in seen : z.x = s.q => z.y = y
             /\ s' = Next_(s, s.q, y, P, Q)
             /\ vals' = Append(vals, y)
             /\ seen' = IF Gen THEN seen ELSE seen \cup {[x |-> s.q, y |-> y]}
        /\ hist' = <<>>
Spec == Init /\ [][Next]_vars
Calls == [k \in 1..(Len(vals') + 1) |-> [op |-> "call", k |-> k - 1]]
Emit == (Gen /\ (Len(vals') = Max \/ s'.ph = "end")) =>
   PrintT("BEH " \o ToJson(<<[op |-> "setup", n |-> s.n, scale |-> 1, x0 |-> X0(s.n), p |-> P, q |-> Q, vals |-> vals']>> \o Calls))
\* The search never loses the best point it has seen, and ends with it
Inv == /\ s.ph \in {"reflect", "final"} => LET m == ArgMin(s.f, s.n) IN
             /\ \A z \in seen : z.y >= s.f[m]
             /\ [x |-> s.v[m], y |-> s.f[m]] \in seen
       /\ s.ph = "final" => s.q = s.v[ArgMin(s.f, s.n)]
       /\ s.ph = "end" => s.fr = s.f[s.s]
       \* the simplex never collapses
       /\ s.ph \in {"reflect", "final"} => Cardinality({s.v[i] : i \in 0..s.n}) = s.n + 1
=============================================================================
