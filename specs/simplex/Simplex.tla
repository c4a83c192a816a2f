------------------------------ MODULE Simplex ------------------------------
(* The downhill simplex search, driven from outside: the search asks for the  *)
(* value of a point q and goes on once it has it. Coordinates are integers    *)
(* (units of 10^-5); values are integers. The search stops when the variance  *)
(* of the values of its n+1 vertices is below P/Q.                            *)
EXTENDS Integers, Sequences, FiniteSets
PN == <<100000, 96593, 94281, 92561, 91210, 90106>>
QN == <<29289, 25882, 23570, 21851, 20499, 19395>>
MaxIt == 5000
RECURSIVE SumTo(_, _)
SumTo(g, k) == IF k < 0 THEN 0 ELSE g[k] + SumTo(g, k - 1)
Half(x) == x \div 2
\* first index with the largest / smallest value
ArgMax(f, n) == CHOOSE i \in 0..n : (\A j \in 0..n : f[j] <= f[i]) /\ (\A j \in 0..(i - 1) : f[j] < f[i])
ArgMin(f, n) == CHOOSE i \in 0..n : (\A j \in 0..n : f[j] >= f[i]) /\ (\A j \in 0..(i - 1) : f[j] > f[i])
\* first index with the largest value below the largest one; the smallest if there is none
ArgSecond(f, n) == LET g == f[ArgMax(f, n)]
                       B == {i \in 0..n : f[i] < g /\ f[i] > f[ArgMin(f, n)]}
                   IN IF B = {} THEN ArgMin(f, n) ELSE CHOOSE i \in B : (\A j \in B : f[j] <= f[i]) /\ (\A j \in B : f[j] = f[i] => i <= j)
Dim(n) == 1..n
Start(n, scale, x0) ==
  LET v == [i \in 0..n |-> [d \in Dim(n) |-> x0[d] + (IF i = 0 THEN 0 ELSE IF i = d THEN scale * PN[n] ELSE scale * QN[n])]]
  IN [n |-> n, v |-> v, f |-> [i \in 0..n |-> 0], ph |-> "init", j |-> 0, it |-> 0, q |-> v[0], vr |-> v[0], fr |-> 0, g |-> 0, s |-> 0, h |-> 0]
\* n times the centroid of the vertices other than g
Cent(s, g, d) == SumTo([i \in 0..s.n |-> IF i = g THEN 0 ELSE s.v[i][d]], s.n)
Div(a, b) == (2 * a + b) \div (2 * b)
\* centroid + (c/2) * (p - centroid)
Along(s, g, p, c) == [d \in Dim(s.n) |-> Div((2 - c) * Cent(s, g, d) + c * s.n * p[d], 2 * s.n)]
Iterate(s) == LET g == ArgMax(s.f, s.n) IN
  [s EXCEPT !.it = @ + 1, !.ph = "reflect", !.g = g, !.s = ArgMin(s.f, s.n), !.h = ArgSecond(s.f, s.n), !.q = Along(s, g, s.v[g], -2)]
Converged(s, P, Q) == LET T == SumTo(s.f, s.n) IN
  Q * SumTo([i \in 0..s.n |-> ((s.n + 1) * s.f[i] - T) * ((s.n + 1) * s.f[i] - T)], s.n) < P * s.n * (s.n + 1) * (s.n + 1)
EndIter(s, P, Q) == IF Converged(s, P, Q) \/ s.it = MaxIt THEN LET m == ArgMin(s.f, s.n) IN [s EXCEPT !.ph = "final", !.s = m, !.q = s.v[m]] ELSE Iterate(s)
Replace(s, x, y) == [s EXCEPT !.v[s.g] = x, !.f[s.g] = y]
\* the reflected point did not help: contract
Contract(s, P, Q) == IF s.fr >= s.f[s.h]
  THEN IF s.fr < s.f[s.g] THEN [s EXCEPT !.ph = "contract", !.q = Along(s, s.g, s.vr, 1)]
                          ELSE [s EXCEPT !.ph = "contract", !.q = Along(s, s.g, s.v[s.g], 1)]
  ELSE EndIter(s, P, Q)
Shrink(s) == [s EXCEPT !.v = [i \in 0..s.n |-> IF i = s.s THEN s.v[i] ELSE [d \in Dim(s.n) |-> s.v[s.s][d] + Half(s.v[i][d] - s.v[s.s][d])]]]
\* The search in state s gets the value y of its point, which was at x (= s.q up to rounding)
Next_(s, x, y, P, Q) ==
  CASE s.ph = "init" -> LET t == [s EXCEPT !.f[s.j] = y, !.v[s.j] = x] IN
                        IF s.j = s.n THEN Iterate(t) ELSE [t EXCEPT !.j = @ + 1, !.q = s.v[s.j + 1]]
    [] s.ph = "reflect" -> LET t == [s EXCEPT !.vr = x, !.fr = y] IN
                           IF y < s.f[s.s] THEN [t EXCEPT !.ph = "expand", !.q = Along(s, s.g, x, 4)]
                           ELSE Contract(IF y < s.f[s.h] THEN Replace(t, x, y) ELSE t, P, Q)
    [] s.ph = "expand" -> Contract(IF y < s.fr THEN Replace(s, x, y) ELSE Replace(s, s.vr, s.fr), P, Q)
    [] s.ph = "contract" -> IF y < s.f[s.g] THEN EndIter(Replace(s, x, y), P, Q)
                            ELSE LET t == Shrink(s) IN [t EXCEPT !.ph = "shrinkg", !.q = t.v[t.g]]
    [] s.ph = "shrinkg" -> [s EXCEPT !.f[s.g] = y, !.v[s.g] = x, !.ph = "shrinkh", !.q = IF s.h = s.g THEN x ELSE s.v[s.h]]
    [] s.ph = "shrinkh" -> EndIter([s EXCEPT !.f[s.h] = y, !.v[s.h] = x], P, Q)
    [] s.ph = "final" -> [s EXCEPT !.ph = "end", !.fr = y]
=============================================================================
