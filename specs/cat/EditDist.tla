------------------------------ MODULE EditDist ------------------------------
(* Edit distances of thot's error correction models: error_correction/{EditDistForStr,EditDistForVec,        *)
(* EditDistForVecString,_editDistBasedEcm,PfsmEcm,PfsmEcmForWg}.  Words are sequences of character codes.    *)
(* c = [h, i, s, d]: cost of a hit, insertion, substitution, deletion of one character.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE m \in S : \A k \in S : m <= k
Last2(q) == q[Len(q)]
Cat(S, q) == FoldLeft(LAMBDA a, k : a + S[k], 0, q)
(* the table of the recurrence: Table[k+1][j+1] is the cost of turning the first k items of x into the first j of y *)
Row0(y, Ins(_)) == FoldLeft(LAMBDA r, b : Append(r, Last2(r) + Ins(b)), <<0>>, y)
NextRow(prev, a, y, Pair(_, _, _), Ins(_), Del(_)) ==
  FoldLeft(LAMBDA r, j : Append(r, Min2(prev[j] + Pair(a, y[j], j), Min2(prev[j + 1] + Del(a), r[j] + Ins(y[j])))),
           <<prev[1] + Del(a)>>, [j \in 1..Len(y) |-> j])
Table(x, y, Pair(_, _, _), Ins(_), Del(_)) ==
  FoldLeft(LAMBDA t, a : Append(t, NextRow(Last2(t), a, y, Pair, Ins, Del)), <<Row0(y, Ins)>>, x)
Corner(t) == Last2(Last2(t))
LastColMin(t) == SetMin({Last2(t[k]) : k \in 1..Len(t)})
(* characters *)
CPair(c, a, b) == IF a = b THEN c.h ELSE c.s
CharTable(c, x, y) == Table(x, y, LAMBDA a, b, j : CPair(c, a, b), LAMBDA b : c.i, LAMBDA a : c.d)
CharDist(c, x, y) == Corner(CharTable(c, x, y))
CharPref(c, x, y) == LastColMin(CharTable(c, x, y))          \* y against the best prefix of x
(* words; ~fin means that the last word of y is the beginning of a word *)
WPair(c, a, b, lastInc) == IF lastInc THEN CharPref(c, a, b) ELSE CharDist(c, a, b)
WIns(c, b) == c.i * Len(b)
WDel(c, a) == c.d * Len(a)
WordTable(c, x, y, fin) ==
  Table(x, y, LAMBDA a, b, j : WPair(c, a, b, ~fin /\ j = Len(y)), LAMBDA b : WIns(c, b), LAMBDA a : WDel(c, a))
(* edit scripts: 0 hit, 1 insertion, 2 deletion, 3 substitution *)
Run(ops, x, y, Pair(_, _, _), Ins(_), Del(_), Ok(_, _, _)) ==
  FoldLeft(LAMBDA st, o :
    IF ~st.ok THEN st
    ELSE IF o = 1 THEN (IF st.j < Len(y) THEN [st EXCEPT !.j = @ + 1, !.c = @ + Ins(y[st.j + 1])] ELSE [st EXCEPT !.ok = FALSE])
    ELSE IF o = 2 THEN (IF st.i < Len(x) THEN [st EXCEPT !.i = @ + 1, !.c = @ + Del(x[st.i + 1])] ELSE [st EXCEPT !.ok = FALSE])
    ELSE IF o \in {0, 3} /\ st.i < Len(x) /\ st.j < Len(y) THEN
      [ok |-> Ok(o, x[st.i + 1], y[st.j + 1]), i |-> st.i + 1, j |-> st.j + 1, c |-> st.c + Pair(x[st.i + 1], y[st.j + 1], st.j + 1)]
    ELSE [st EXCEPT !.ok = FALSE],
    [i |-> 0, j |-> 0, c |-> 0, ok |-> TRUE], ops)
CharScript(c, ops, x, y) ==
  Run(ops, x, y, LAMBDA a, b, j : CPair(c, a, b), LAMBDA b : c.i, LAMBDA a : c.d, LAMBDA o, a, b : (o = 0) = (a = b))
WordScript(c, ops, x, y, fin) ==
  Run(ops, x, y, LAMBDA a, b, j : WPair(c, a, b, ~fin /\ j = Len(y)), LAMBDA b : WIns(c, b), LAMBDA a : WDel(c, a),
      LAMBDA o, a, b : IF o = 0 THEN (a = b \/ (~fin /\ IsPrefix(b, a))) ELSE a # b)
Whole(r, x, y, cost) == r.ok /\ r.i = Len(x) /\ r.j = Len(y) /\ r.c = cost
Part(r, x, y, cost) == r.ok /\ r.j = Len(y) /\ r.c = cost
(* the results allowed for correcting x so that it starts with y; free: what follows the best prefix of x is kept *)
Tail2(q, k) == SubSeq(q, k + 1, Len(q))
Extensions(c, a, b) ==  \* b completed with the rest of a after an optimal split
  LET t == CharTable(c, a, b) m == LastColMin(t) IN {b \o Tail2(a, k) : k \in {n \in 0..Len(a) : Last2(t[n + 1]) = m}}
Corrections(c, x, y, fin, free) ==
  IF y = <<>> THEN (IF free THEN {x} ELSE {<<>>})
  ELSE
  LET t == WordTable(c, x, y, fin) m == Len(y)
      best == IF free THEN LastColMin(t) ELSE Corner(t)
      ends == {k \in (IF free THEN 0..Len(x) ELSE {Len(x)}) : t[k + 1][m + 1] = best}
      dels(i, k) == FoldLeft(LAMBDA a, w : a + WDel(c, w), 0, SubSeq(x, i + 1, k))
      head == SubSeq(y, 1, m - 1)
      paired(k) == {i \in 1..k : t[i][m] + WPair(c, x[i], y[m], ~fin) + dels(i, k) = t[k + 1][m + 1]}
      inserted(k) == \E i \in 0..k : t[i + 1][m] + WIns(c, y[m]) + dels(i, k) = t[k + 1][m + 1]
      lasts(k) == UNION {IF ~fin /\ IsPrefix(y[m], x[i]) THEN Extensions(c, x[i], y[m]) ELSE {y[m]} : i \in paired(k)}
                  \cup (IF inserted(k) THEN {y[m]} ELSE {})
  IN UNION {{Append(head, w) \o Tail2(x, k) : w \in lasts(k)} : k \in ends}
(* the incremental automaton: for each k, the costs of turning the first k words into every prefix of y, and for each *)
(* column the column reached before word k *)
PredOk(c, t, x, y, fin, k, j, p) ==
  /\ p \in 0..j
  /\ LET ins(a, b) == FoldLeft(LAMBDA s, w : s + WIns(c, w), 0, SubSeq(y, a + 1, b))
         inc(q) == ~fin /\ q = Len(y)
     IN \/ t[k][p + 1] + WDel(c, x[k]) + ins(p, j) = t[k + 1][j + 1]
        \/ p < j /\ t[k][p + 1] + WPair(c, x[k], y[p + 1], inc(p + 1)) + ins(p + 1, j) = t[k + 1][j + 1]
(* probabilities (parts per million) of the probabilistic error model with weights w = <<V, h, i, s, d>>, h in thousandths *)
ValidW(w) == Len(w) = 5 /\ (\A k \in 1..5 : w[k] > 0) /\ w[2] < 1000
Den(w) == w[3] * w[1] + w[4] * (w[1] - 1) + w[5]
Ppm(w, f) == ((1000 - w[2]) * 1000 * f) \div Den(w)
Near(a, b) == a - b \in -3..3
ProbsOk(w, p) ==  \* a pair may also be dealt with by an insertion and a deletion when that is more likely
  LET both == (p[2] \div 1000) * (p[4] \div 1000)
      pair(q, own) == IF both + 3000 < own THEN Near(q, own) ELSE q >= own - 3 /\ (Near(q, own) \/ q - both \in -3000..3000)
  IN Near(p[2], Ppm(w, w[3])) /\ Near(p[4], Ppm(w, w[5])) /\ pair(p[1], w[2] * 1000) /\ pair(p[3], Ppm(w, w[4]))
=============================================================================
