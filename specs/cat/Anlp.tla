-------------------------------- MODULE Anlp --------------------------------
(* Interactive translation over a word graph (error_correction/WgProcessorForAnlp): what to suggest for a user  *)
(* prefix.  g = [arcs, fin, init]: arcs is a sequence of [p, s, w, sc] in topological order, state 0 is initial, *)
(* fin the set of final states, init the score of the initial state.  wg, ec: weights of graph and error model. *)
(* The processor keeps, for every state and every length of the prefix, the best combination of an arc's error  *)
(* score and the graph score of its predecessor (one per state); the specification computes the same from      *)
(* scratch, so it does not depend on the prefixes seen before.                                                  *)
EXTENDS EditDist
NONE == -1000000000
Max2(a, b) == IF a > b THEN a ELSE b
States(g) == {0} \cup {g.arcs[k].p : k \in DOMAIN g.arcs} \cup {g.arcs[k].s : k \in DOMAIN g.arcs}
Involved(g) == {g.arcs[k].p : k \in DOMAIN g.arcs} \cup {g.arcs[k].s : k \in DOMAIN g.arcs}
(* best score of the graph from each state to a final state *)
RECURSIVE RestFrom(_, _, _)
RestFrom(g, k, f) == IF k = 0 THEN f ELSE
  LET a == g.arcs[k] v == IF f[a.s] = NONE THEN NONE ELSE f[a.s] + a.sc IN
  RestFrom(g, k - 1, [f EXCEPT ![a.p] = Max2(@, v)])
Rests(g) == RestFrom(g, Len(g.arcs), [s \in States(g) |-> IF s \in g.fin THEN g.init ELSE NONE])  \* WordGraph includes the initial score
(* rows of the error model: one row (costs for every length of the prefix) after each word of each arc *)
WRow(c, prev, a, y, fin) == NextRow(prev, a, y, LAMBDA u, v, j : WPair(c, u, v, ~fin /\ j = Len(y)), LAMBDA v : WIns(c, v), LAMBDA u : WDel(c, u))
ArcRows(c, row, ws, y, fin) == Tail(FoldLeft(LAMBDA t, a : Append(t, WRow(c, Last2(t), a, y, fin)), <<row>>, ws))
InitRow(c, y) == Row0(y, LAMBDA v : WIns(c, v))
(* m = [row, wg, best, pred, amb]: per state the error row, graph score, combined scores and arcs they come from, and   *)
(* whether different arcs tie *)
Cols(y) == 1..Len(y) + 1
Model(g, c, wgw, ecw, y, fin) ==
  LET start == [rows |-> <<>>,
                row |-> [s \in States(g) |-> IF s = 0 THEN InitRow(c, y) ELSE <<>>],
                wg |-> [s \in States(g) |-> IF s = 0 THEN g.init ELSE NONE],
                best |-> [s \in States(g) |-> IF s = 0 THEN [j \in Cols(y) |-> wgw * g.init - ecw * InitRow(c, y)[j]] ELSE [j \in Cols(y) |-> NONE]],
                pred |-> [s \in States(g) |-> [j \in Cols(y) |-> 0]],
                amb |-> FALSE]
      step(m, k) ==
        LET a == g.arcs[k] rs == ArcRows(c, m.row[a.p], a.w, y, fin)
            last == IF rs = <<>> THEN m.row[a.p] ELSE Last2(rs)
            w == m.wg[a.p] + a.sc
            sc == [j \in Cols(y) |-> wgw * w - ecw * last[j]]
            old == m.best[a.s]
            up == {j \in Cols(y) : old[j] < sc[j]}
            tie == \E j \in Cols(y) : old[j] = sc[j]
        IN [rows |-> Append(m.rows, rs),
            row |-> [m.row EXCEPT ![a.s] = IF @ = <<>> THEN last ELSE [j \in Cols(y) |-> IF j \in up THEN last[j] ELSE @[j]]],
            wg |-> [m.wg EXCEPT ![a.s] = Max2(@, w)],
            best |-> [m.best EXCEPT ![a.s] = [j \in Cols(y) |-> IF j \in up THEN sc[j] ELSE old[j]]],
            pred |-> [m.pred EXCEPT ![a.s] = [j \in Cols(y) |-> IF j \in up THEN k ELSE @[j]]],
            amb |-> m.amb \/ tie]
  IN FoldLeft(LAMBDA m, k : step(m, k), start, [k \in DOMAIN g.arcs |-> k])
(* rejected words: pairs <<accepted beginning, rejected ending>> *)
WordOk(w, rej) == \A r \in rej : IsPrefix(r[1], w) /\ Tail2(w, Len(r[1])) # r[2]
ArcOk(a, rej) == rej = {} \/ a.w = <<>> \/ WordOk(a.w[1], rej)
From(g, s) == {k \in DOMAIN g.arcs : g.arcs[k].p = s}
SetMaxOrNone(S) == IF S = {} THEN NONE ELSE CHOOSE v \in S : \A u \in S : u <= v
RestRej(g, rest, s, rej) ==
  IF rej = {} THEN rest[s]
  ELSE SetMaxOrNone({g.arcs[k].sc + rest[g.arcs[k].s] : k \in {n \in From(g, s) : ArcOk(g.arcs[n], rej) /\ rest[g.arcs[n].s] # NONE}})
(* the words on the best ways from a state to a final one *)
RECURSIVE BestTails(_, _, _)
BestTails(g, rest, s) ==
  (IF s \in g.fin /\ rest[s] = g.init THEN {<<>>} ELSE {})
  \cup UNION {{g.arcs[k].w \o t : t \in BestTails(g, rest, g.arcs[k].s)} : k \in {n \in From(g, s) : rest[g.arcs[n].s] # NONE /\ g.arcs[n].sc + rest[g.arcs[n].s] = rest[s]}}
TailsRej(g, rest, s, rej) ==
  IF rej = {} THEN BestTails(g, rest, s)
  ELSE LET v == RestRej(g, rest, s, rej) IN
    UNION {{g.arcs[k].w \o t : t \in BestTails(g, rest, g.arcs[k].s)} : k \in {n \in From(g, s) : ArcOk(g.arcs[n], rej) /\ rest[g.arcs[n].s] # NONE /\ g.arcs[n].sc + rest[g.arcs[n].s] = v}}
(* words of the graph aligned with the first j words of the prefix, going back from state s *)
PredCols(c, prev, a, cur, y, fin, j) ==  \* columns before word a that explain column j after it
  LET ins(u, v) == FoldLeft(LAMBDA s, w : s + WIns(c, w), 0, SubSeq(y, u + 1, v)) IN
  {p \in 0..j : prev[p + 1] + WDel(c, a) + ins(p, j) = cur[j + 1]
             \/ (p < j /\ prev[p + 1] + WPair(c, a, y[p + 1], ~fin /\ p + 1 = Len(y)) + ins(p + 1, j) = cur[j + 1])}
RECURSIVE ThroughArc(_, _, _, _, _, _, _)
RECURSIVE Heads(_, _, _, _, _, _, _)
ThroughArc(g, c, m, y, fin, kn, j) ==  \* kn = <<arc, number of its words>>
  LET k == kn[1] n == kn[2] a == g.arcs[k] IN
  IF n = 0 THEN Heads(g, c, m, y, fin, a.p, j)
  ELSE LET prev == IF n = 1 THEN m.row[a.p] ELSE m.rows[k][n - 1] IN
    {Append(t, a.w[n]) : t \in UNION {ThroughArc(g, c, m, y, fin, <<k, n - 1>>, p) : p \in PredCols(c, prev, a.w[n], m.rows[k][n], y, fin, j)}}
Heads(g, c, m, y, fin, s, j) == IF s = 0 THEN {<<>>} ELSE ThroughArc(g, c, m, y, fin, <<m.pred[s][j + 1], Len(g.arcs[m.pred[s][j + 1]].w)>>, j)
Fixed(c, u, y, fin) == IF u = <<>> THEN {y} ELSE Corrections(c, u, y, fin, FALSE)
(* the candidates: <<score, state>> and <<score, arc, word>> *)
StateCands(g, m, wgw, rest, rej) ==
  {s \in Involved(g) : RestRej(g, rest, s, rej) # NONE}
StateScore(g, m, wgw, rest, rej, s) == Last2(m.best[s]) + wgw * RestRej(g, rest, s, rej)
SubCands(g, rej) == {q \in {<<k, n>> : k \in DOMAIN g.arcs, n \in 1..20} : q[2] < Len(g.arcs[q[1]].w) /\ (rej = {} \/ WordOk(g.arcs[q[1]].w[q[2] + 1], rej))}
SubScore(g, m, wgw, ecw, rest, q) ==
  LET a == g.arcs[q[1]] IN wgw * (m.wg[a.p] + a.sc + rest[a.s]) - ecw * Last2(m.rows[q[1]][q[2]])
StateTexts(g, c, m, y, fin, rest, rej, s) ==
  {f \o t : f \in UNION {Fixed(c, u, y, fin) : u \in Heads(g, c, m, y, fin, s, Len(y))}, t \in TailsRej(g, rest, s, rej)}
SubTexts(g, c, m, y, fin, rest, q) ==
  LET a == g.arcs[q[1]] IN
  {f \o Tail2(a.w, q[2]) \o t : f \in UNION {Fixed(c, u, y, fin) : u \in ThroughArc(g, c, m, y, fin, q, Len(y))}, t \in BestTails(g, rest, a.s)}
=============================================================================
