----------------------------- MODULE Alignment -----------------------------
(* Word alignment matrices and operations between alignment files.          *)
(* A matrix is [I, J, c]: c is the sequence of its I rows (target or source  *)
(* words, as the caller likes), each a sequence of J link counts.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Zero(I, J) == [I |-> I, J |-> J, c |-> [i \in 1..I |-> [j \in 1..J |-> 0]]]
Map2(a, b, Op(_, _)) == [a EXCEPT !.c = [i \in 1..a.I |-> [j \in 1..a.J |-> Op(a.c[i][j], b.c[i][j])]]]
Same(a, b) == a.I = b.I /\ a.J = b.J
Links(a) == {x \in (1..a.I) \X (1..a.J) : a.c[x[1]][x[2]] # 0}
B(x) == IF x THEN 1 ELSE 0

And(a, b)  == Map2(a, b, LAMBDA x, y : IF y # 0 THEN x ELSE 0)
Or(a, b)   == Map2(a, b, LAMBDA x, y : B(x # 0 \/ y # 0))
Xor(a, b)  == Map2(a, b, LAMBDA x, y : B((x # 0) # (y # 0)))
Plus(a, b) == Map2(a, b, LAMBDA x, y : x + y)
Minus(a, b) == Map2(a, b, LAMBDA x, y : IF y # 0 THEN 0 ELSE x)
Flip(a)    == [a EXCEPT !.c = [i \in 1..a.I |-> [j \in 1..a.J |-> B(a.c[i][j] = 0)]]]
Transp(a)  == [I |-> a.J, J |-> a.I, c |-> [j \in 1..a.J |-> [i \in 1..a.I |-> a.c[i][j]]]]

Put(a, i, j) == [a EXCEPT !.c[i][j] = 1]
Has(a, i, j) == i \in 1..a.I /\ j \in 1..a.J /\ a.c[i][j] # 0
RowUsed(a, i) == \E j \in 1..a.J : a.c[i][j] # 0
ColUsed(a, j) == \E i \in 1..a.I : a.c[i][j] # 0
Horiz(a, i, j) == Has(a, i, j - 1) \/ Has(a, i, j + 1)
Vert(a, i, j)  == Has(a, i - 1, j) \/ Has(a, i + 1, j)

(* Cells in reading order: rows first. *)
Cells(a) == [k \in 1..(a.I * a.J) |-> <<((k - 1) \div a.J) + 1, ((k - 1) % a.J) + 1>>]

(* Och 1999 / 2002: starting with the intersection, points of the union are  *)
(* added while they link two unlinked words or extend a present point        *)
(* (horizontally or vertically; version 2: not in both directions at once).  *)
Addable(m, u, x, v) ==
    LET i == x[1] j == x[2] IN
    /\ m.c[i][j] = 0 /\ u.c[i][j] # 0
    /\ \/ ~RowUsed(m, i) /\ ~ColUsed(m, j)
       \/ /\ Horiz(m, i, j) \/ Vert(m, i, j)
          /\ v = 1 \/ ~(Horiz(m, i, j) /\ Vert(m, i, j))
SymPass(m, u, v) == FoldLeft(LAMBDA acc, x : IF Addable(acc, u, x, v) THEN Put(acc, x[1], x[2]) ELSE acc, m, Cells(m))
RECURSIVE SymFix(_, _, _)
SymFix(m, u, v) == LET n == SymPass(m, u, v) IN IF n = m THEN m ELSE SymFix(n, u, v)
Sym(a, b, v) == SymFix(And(a, b), Or(a, b), v)

(* grow-diag-final: neighbours (diagonal ones too) of present points which   *)
(* link at least one unlinked word, then such points of a, then of b.        *)
Adjacent(a, x) ==
    SelectSeq([k \in 1..9 |-> <<x[1] + ((k - 1) \div 3) - 1, x[2] + ((k - 1) % 3) - 1>>],
              LAMBDA y : y # x /\ y[1] \in 1..a.I /\ y[2] \in 1..a.J)
Free(m, y) == ~RowUsed(m, y[1]) \/ ~ColUsed(m, y[2])
GrowPass(m, u) ==
    FoldLeft(LAMBDA acc, x :
        IF acc.c[x[1]][x[2]] = 0 THEN acc
        ELSE FoldLeft(LAMBDA r, y : IF Free(r, y) /\ u.c[y[1]][y[2]] # 0 THEN Put(r, y[1], y[2]) ELSE r, acc, Adjacent(m, x)),
      m, Cells(m))
RECURSIVE GrowFix(_, _)
GrowFix(m, u) == LET n == GrowPass(m, u) IN IF n = m THEN m ELSE GrowFix(n, u)
Final(m, a) == FoldLeft(LAMBDA acc, x : IF a.c[x[1]][x[2]] # 0 /\ Free(acc, x) THEN Put(acc, x[1], x[2]) ELSE acc, m, Cells(m))
Grd(a, b) == Final(Final(GrowFix(And(a, b), Or(a, b)), a), b)

(* Matrices of different shapes are not combined: the first is the result.   *)
Op(o, a, b) ==
    IF ~Same(a, b) THEN a
    ELSE CASE o = "and" -> And(a, b) [] o = "or" -> Or(a, b) [] o = "xor" -> Xor(a, b)
           [] o = "sum" -> Plus(a, b) [] o = "sub" -> Minus(a, b)
           [] o = "sym1" -> Sym(a, b, 1) [] o = "sym2" -> Sym(a, b, 2) [] o = "grd" -> Grd(a, b)

(* Alignment as a vector: position j linked to word v[j], 0 for none.        *)
FromVec(a, v) == IF Len(v) # a.J THEN a
                 ELSE [a EXCEPT !.c = [i \in 1..a.I |-> [j \in 1..a.J |-> IF v[j] = i THEN 1 ELSE a.c[i][j]]]]
VecOk(a) == \A j \in 1..a.J : Cardinality({i \in 1..a.I : a.c[i][j] # 0}) <= 1
ToVec(a) == [j \in 1..a.J |-> IF ColUsed(a, j) THEN CHOOSE i \in 1..a.I : a.c[i][j] # 0 ELSE 0]

(* ---- files: sequences of [n, s, t, m]: number of repetitions, words of    *)
(* the side with NULL (I), words of the other side (J), links.               *)
TranspPair(p) == [p EXCEPT !.s = p.t, !.t = p.s, !.m = Transp(p.m)]
TranspFile(f, yes) == IF yes THEN [k \in 1..Len(f) |-> TranspPair(f[k])] ELSE f
Min2(x, y) == IF x < y THEN x ELSE y
OpFile(o, f, g) ==
    [k \in 1..Min2(Len(f), Len(g)) |->
        IF f[k].s = g[k].s /\ f[k].t = g[k].t THEN [f[k] EXCEPT !.m = Op(o, f[k].m, g[k].m)] ELSE f[k]]
(* ops: sequence of [o, f, tr].                                              *)
OpFiles(ops, f) == FoldLeft(LAMBDA acc, x : OpFile(x.o, acc, TranspFile(x.f, x.tr)), f, ops)

(* Exhaustive mode: the pairs of the first file are the distinct ones (with  *)
(* the links of their first occurrence); every pair of the second file is    *)
(* combined with the equal one, wherever it is.                              *)
SamePair(p, q) == p.s = q.s /\ p.t = q.t
Distinct(f) == FoldLeft(LAMBDA acc, p : IF \E k \in DOMAIN acc : SamePair(acc[k], p) THEN acc ELSE Append(acc, p), <<>>, f)
OpAll(o, acc, g) ==
    FoldLeft(LAMBDA a2, q : [k \in DOMAIN a2 |-> IF SamePair(a2[k], q) THEN [a2[k] EXCEPT !.m = Op(o, a2[k].m, q.m)] ELSE a2[k]], acc, g)
OpsAll(ops, f) == FoldLeft(LAMBDA acc, x : OpAll(x.o, acc, TranspFile(x.f, x.tr)), Distinct(f), ops)
Times(f, p) == Cardinality({k \in DOMAIN f : SamePair(f[k], p)})
Exhaustive(ops, f) ==
    LET d == OpsAll(ops, f)
    IN [k \in DOMAIN f |-> [f[k] EXCEPT !.m = (d[CHOOSE x \in DOMAIN d : SamePair(d[x], f[k])]).m]]
Compact(ops, f) == LET d == OpsAll(ops, f) IN {[d[k] EXCEPT !.n = Times(f, d[k])] : k \in DOMAIN d}
=============================================================================
