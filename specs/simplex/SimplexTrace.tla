---------------------------- MODULE SimplexTrace ----------------------------
(* Checks recorded calls of the search. "setup" gives the problem and the      *)
(* list of values; "call" restarts it with the first k values. st[k+1] is the  *)
(* search after k values, with the point it asked for.                         *)
EXTENDS Simplex, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, st
vars == <<h, l, st>>
Init == h \in DOMAIN Traces /\ l = 1 /\ st = <<>>
E == Traces[h][l]
Set0 == Traces[h][1]
Val(x) == IF x THEN TRUE ELSE FALSE
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Tol == 6
Close(a, b, t) == Len(a) = Len(b) /\ \A d \in DOMAIN a : Abs(a[d] - b[d]) <= t
Setup == E.op = "setup" /\ l = 1 /\ st' = <<[s |-> TLCEval(Start(E.n, E.scale, E.x0)), b |-> "", x |-> <<>>]>>
\* The answer to a call that leaves the search in state s, asked for point x before
Answer(r) == IF r.s.ph = "end"
             THEN /\ E.ret = (IF r.s.it >= MaxIt THEN "max" ELSE "ok")
                  /\ Close(E.sol, r.s.v[r.s.s], Tol) /\ E.solb = E.b /\ E.y = r.s.fr
             ELSE E.ret = "eval" /\ Close(E.x, r.s.q, Tol)
Known(k) == k + 1 <= Len(st)
\* values after the one that ended the search are not read
Last == st[Len(st)]
Call == /\ E.op = "call"
        /\ IF Known(E.k) /\ st[E.k + 1].b # ""
           THEN LET r == st[E.k + 1] IN
                Val(Answer(r) /\ E.b = r.b /\ E.nf = r.s.it) /\ UNCHANGED st
           ELSE IF Known(E.k)
           THEN LET r == st[E.k + 1] IN
                /\ Val(Answer(r) /\ E.nf = r.s.it)
                /\ st' = [st EXCEPT ![E.k + 1] = [s |-> r.s, b |-> E.b, x |-> E.x]]
           ELSE IF Last.s.ph = "end" THEN Val(Answer(Last) /\ E.b = Last.b /\ E.nf = Last.s.it) /\ UNCHANGED st
           ELSE /\ E.k = Len(st)
                /\ LET n == TLCEval(Next_(Last.s, Last.x, Set0.vals[E.k], Set0.p, Set0.q))
                   IN /\ (IF n.ph = "end" THEN Val(Answer([s |-> n])) /\ Val(E.b = Last.b) ELSE Val(Answer([s |-> n])))
                      /\ Val(E.nf = n.it)
                      /\ st' = Append(st, [s |-> n, b |-> E.b, x |-> E.x])
\* The program prints the fixed and the other variables (six digits)
Free == {i \in DOMAIN Set0.va : Set0.va[i] = Set0.free}
PX(x) == [i \in DOMAIN Set0.va |-> IF i \in Free THEN x[Cardinality({j \in Free : j <= i})] ELSE Set0.va[i]]
\* six digits of values up to 100
PClose(a, b) == Len(a) = Len(b) /\ \A d \in DOMAIN a : Abs(a[d] - b[d]) <= 6 + Abs(b[d]) \div 50000
Prog == /\ E.op = "prog" /\ (Known(E.k) \/ Last.s.ph = "end") /\ UNCHANGED st
        /\ LET r == IF Known(E.k) THEN st[E.k + 1] ELSE Last IN
           IF r.s.ph = "end" THEN Val(E.ret = "ok" /\ PClose(E.out, PX(r.s.v[r.s.s])))
           ELSE Val(E.ret = "eval" /\ PClose(E.out, PX(r.x)))
\* The script asks for the values one by one, also across interruptions, and ends with the solution
Script == /\ E.op = "script" /\ UNCHANGED st
          /\ Last.s.ph = "end"
          /\ Val(Len(E.asked) = Len(st) - 1)
          /\ \A k \in DOMAIN E.asked : Val(PClose(E.asked[k], PX(st[k].x)))
          /\ Val(PClose(E.out, PX(Last.s.v[Last.s.s])))
Step == l <= Len(Traces[h]) /\ (Setup \/ Call \/ Prog \/ Script) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
