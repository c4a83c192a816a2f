------------------------------ MODULE EditDistMC ------------------------------
(* (1) On all small inputs the recurrence is the minimum over all edit scripts, and the free last column is the *)
(* minimum over all prefixes.  (2) The automaton that extends its rows column by column, whatever the chunks    *)
(* in which the prefix is fed and withdrawn, always holds the rows of the recurrence.                           *)
EXTENDS EditDist, Json
CONSTANTS Costs, Strs, Words, MaxWords, Mode, Emit
VARIABLES c, x, y, fin, rows, hist
vars == <<c, x, y, fin, rows, hist>>
CostOf(k) == CASE k = 1 -> [h |-> 0, i |-> 1, s |-> 1, d |-> 1] [] k = 2 -> [h |-> 1, i |-> 4, s |-> 5, d |-> 3]
               [] k = 3 -> [h |-> 0, i |-> 1, s |-> 9, d |-> 2] [] k = 4 -> [h |-> 5, i |-> 3, s |-> 4, d |-> 7]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Scripts(_, _)
Scripts(n, m) == IF n = 0 /\ m = 0 THEN {<<>>}
  ELSE (IF n > 0 /\ m > 0 THEN {Append(p, 3) : p \in Scripts(n - 1, m - 1)} ELSE {})
    \cup (IF n > 0 THEN {Append(p, 2) : p \in Scripts(n - 1, m)} ELSE {})
    \cup (IF m > 0 THEN {Append(p, 1) : p \in Scripts(n, m - 1)} ELSE {})
CostC(k, p, a, b) == Run(p, a, b, LAMBDA u, v, j : CPair(k, u, v), LAMBDA v : k.i, LAMBDA u : k.d, LAMBDA o, u, v : TRUE).c
CostW(k, p, a, b, f) == Run(p, a, b, LAMBDA u, v, j : WPair(k, u, v, ~f /\ j = Len(b)), LAMBDA v : WIns(k, v), LAMBDA u : WDel(k, u), LAMBDA o, u, v : TRUE).c
DistC(k, a, b) == SetMin({CostC(k, p, a, b) : p \in Scripts(Len(a), Len(b))})
DistW(k, a, b, f) == SetMin({CostW(k, p, a, b, f) : p \in Scripts(Len(a), Len(b))})
(* the code's recurrence for prefixes: deletions in the last column are free *)
FreeTable(k, a, b) == LET t == CharTable(k, a, b) IN
  FoldLeft(LAMBDA s, r : Min2(s, Last2(r)), Last2(t[1]), Tail(t))
Init == /\ c \in {CostOf(k) : k \in Costs} /\ fin = TRUE /\ y = <<>>
        /\ IF Mode = "auto" THEN x \in Seqs(Words, MaxWords) /\ rows = [k \in 1..Len(x) + 1 |-> <<Cat([j \in 1..Len(x) |-> WDel(c, x[j])], [j \in 1..k - 1 |-> j])>>]
           ELSE x = <<>> /\ rows = <<>>
        /\ hist = <<[op |-> "costs", h |-> c.h, i |-> c.i, s |-> c.s, d |-> c.d], [op |-> "words", x |-> x]>>
(* rows extended by the columns of chunk q; the k-th row needs the (k-1)-th *)
ExtRow(prev, old, a, q, f) == FoldLeft(LAMBDA r, j :
     LET n == Len(old) + j - 1 IN   \* the column before the new one
     Append(r, Min2(prev[n] + WPair(c, a, q[j], ~f /\ j = Len(q)), Min2(prev[n + 1] + WDel(c, a), r[n] + WIns(c, q[j])))),
   old, [j \in 1..Len(q) |-> j])
Extend(q, f) == FoldLeft(LAMBDA t, k : Append(t, ExtRow(t[k], rows[k + 1], x[k], q, f)),
   <<FoldLeft(LAMBDA r, b : Append(r, Last2(r) + WIns(c, b)), rows[1], q)>>, [k \in 1..Len(x) |-> k])
Feed == /\ Mode = "auto" /\ fin /\ \E q \in Seqs(Words, MaxWords), f \in BOOLEAN :
          /\ q # <<>> /\ Len(y) + Len(q) <= MaxWords
          /\ y' = y \o q /\ fin' = f /\ rows' = Extend(q, f)
          /\ hist' = Append(hist, [op |-> "feed", y |-> q, fin |-> f]) /\ UNCHANGED <<c, x>>
Drop == /\ Mode = "auto" /\ \E n \in 1..Len(y) :
          /\ y' = SubSeq(y, 1, Len(y) - n) /\ fin' = TRUE
          /\ rows' = [k \in DOMAIN rows |-> SubSeq(rows[k], 1, Len(rows[k]) - n)]
          /\ hist' = Append(hist, [op |-> "drop", n |-> n]) /\ UNCHANGED <<c, x>>
Chr == /\ Mode = "chr" /\ Len(hist) = 2 /\ \E a, b \in Seqs(Strs, 3) :
         hist' = Append(hist, [op |-> "chr", x |-> a, y |-> b]) /\ UNCHANGED <<c, x, y, fin, rows>>
Wrd == /\ Mode = "wrd" /\ Len(hist) = 2 /\ \E a, b \in Seqs(Words, MaxWords), f \in BOOLEAN :
         (b = <<>> => f) /\ hist' = Append(hist, [op |-> "wrd", x |-> a, y |-> b, fin |-> f]) /\ UNCHANGED <<c, x, y, fin, rows>>
MCSpec == Init /\ [][Feed \/ Drop \/ Chr \/ Wrd]_vars
View == <<c, x, y, fin, rows, IF Mode = "auto" THEN <<>> ELSE hist>>
Last3 == hist[Len(hist)]
RowsRight == Mode = "auto" => rows = WordTable(c, x, y, fin)
ChrRight == (Mode = "chr" /\ Len(hist) = 3) => LET a == Last3.x b == Last3.y IN
  /\ CharDist(c, a, b) = DistC(c, a, b)
  /\ CharPref(c, a, b) = SetMin({DistC(c, SubSeq(a, 1, k), b) : k \in 0..Len(a)}) /\ CharPref(c, a, b) = FreeTable(c, a, b)
WrdRight == (Mode = "wrd" /\ Len(hist) = 3) => LET a == Last3.x b == Last3.y f == Last3.fin IN
  /\ Corner(WordTable(c, a, b, f)) = DistW(c, a, b, f)
  /\ LastColMin(WordTable(c, a, b, f)) = SetMin({DistW(c, SubSeq(a, 1, k), b, f) : k \in 0..Len(a)})
(* a correction starts with the prefix and is never empty of results *)
CorRight == (Mode = "wrd" /\ Len(hist) = 3) => \A free \in BOOLEAN : LET a == Last3.x b == Last3.y f == Last3.fin R == Corrections(c, a, b, f, free) IN
  /\ R # {} /\ \A r \in R : Len(r) >= Len(b) /\ \A k \in 1..Len(b) : IF k = Len(b) /\ ~f THEN IsPrefix(b[k], r[k]) ELSE b[k] = r[k]
EmitBehaviour == Emit => PrintT("BEH " \o ToJson(hist'))
=============================================================================
