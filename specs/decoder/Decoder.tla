------------------------------- MODULE Decoder -------------------------------
(* Phrase-based decoding: which derivations a request allows, what they score  *)
(* and which is best.  The component models are integer functions with the     *)
(* context dependence of the real ones (n-gram history, segment lengths,       *)
(* reordering distance); weights are in quarters.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinN(a, b) == IF a < b THEN a ELSE b
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Dot(w, c) == LET RECURSIVE D(_)
                 D(i) == IF i = 0 THEN 0 ELSE D(i - 1) + w[i] * c[i]
             IN D(Len(c))
AddV(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
----------------------------------------------------------------------------
(* Component models of m. *)
Lp(m, h, w) == -((m.lm.c[1] * w + (IF Len(h) >= 1 /\ Len(m.lm.c) >= 2 THEN m.lm.c[2] * h[1] ELSE 0)
                                + (IF Len(h) >= 2 /\ Len(m.lm.c) >= 3 THEN m.lm.c[3] * h[2] ELSE 0)) % m.lm.m)
Put(m, h, w) == LET r == <<w>> \o h IN SubSeq(r, 1, MinN(Len(r), m.lm.o - 1))
LmWord(w) == IF w \in 3..8 THEN w ELSE 0
RECURSIVE LmRun(_, _, _)
LmRun(m, h, t) == IF t = <<>> THEN <<0, h>>
                  ELSE LET w == LmWord(Head(t)) n == LmRun(m, Put(m, h, w), Tail(t)) IN <<Lp(m, h, w) + n[1], n[2]>>
Bos(m) == Put(m, <<>>, 0)
WordPen(m, n) == -((n * n * m.wp[1]) % 7)
SumPen(m, n) == -(m.wp[2] * n + m.wp[3])
Pt(m, s, t) == IF <<s, t>> \in DOMAIN m.pt THEN m.pt[<<s, t>>] ELSE <<-(10 + Len(s) + 2 * Len(t)), -(9 + 2 * Len(s) + Len(t))>>
Dict(m, s, t) == IF <<s, t>> \in DOMAIN m.dict THEN m.dict[<<s, t>>] ELSE 0
Known(m, s) == {k[2] : k \in {x \in DOMAIN m.pt \cup DOMAIN m.dict : x[1] = s}}
(* Score components: word penalty, language model, target and source phrase    *)
(* lengths, jump, direct and inverse phrase model, per-sentence dictionary.    *)
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
InitComps(m) == [Zero EXCEPT ![1] = SumPen(m, 0)]
StepComps(m, J, st, l, r, s, t, lm) ==
  <<SumPen(m, st.n + Len(t)) - SumPen(m, st.n), lm,
    -((Len(t) * m.tl[1] + st.n * m.tl[2]) % 4),
    -(m.j * Abs(l - (st.e + 1))),
    -(((r - l + 1) * m.sl[1] + Len(t) * m.sl[2] + J * m.sl[3]) % 5),
    Pt(m, s, t)[1], Pt(m, s, t)[2], Dict(m, s, t)>>
FinalComps(m, st) == [Zero EXCEPT ![1] = WordPen(m, st.n) - SumPen(m, st.n), ![2] = Lp(m, st.h, 20)]
(* Context-free score of a phrase pair, by which options are shortlisted.      *)
PairScore(C, s, t) == Dot(C.w, <<WordPen(C.m, Len(t)), LmRun(C.m, <<>>, t)[1], 0, 0, 0, Pt(C.m, s, t)[1], Pt(C.m, s, t)[2], Dict(C.m, s, t)>>)
----------------------------------------------------------------------------
(* A request C: models m, weights w, parameters par, source src (word numbers),*)
(* constraints cons (span -> target), mode, text ref, blank.                    *)
J(C) == Len(C.src)
Span(C, l, r) == SubSeq(C.src, l, r)
Start(C) == [c |-> {}, e |-> 0, h |-> Bos(C.m), n |-> 0]
Affected(C, l, r) == \E k \in DOMAIN C.cons : k[1] <= r /\ l <= k[2]
Unseen(C, l) == Known(C.m, <<C.src[l]>>) = {}
GapStart(c, l) == 1 + MaxOf({0} \cup {x \in c : x < l})
Spans(C, st) == {p \in (1..J(C)) \X (1..J(C)) :
  /\ p[1] <= p[2] /\ \A x \in p[1]..p[2] : x \notin st.c
  /\ p[1] - GapStart(st.c, p[1]) <= C.par.U
  /\ p[2] - p[1] + 1 <= C.par.A \/ (C.mode = "plain" /\ Affected(C, p[1], p[2]))}
(* Shortlist by the W parameter (an absolute number, or a ratio to the best):  *)
(* options that may and that must remain, depending on how ties are cut.       *)
Same(S) == [may |-> S, must |-> S]
Shortlist(C, s, S) ==
  LET W == C.par.W sc == [t \in S |-> PairScore(C, s, t)] best == MaxOf({sc[t] : t \in S}) IN
  IF S = {} \/ (W >= 100 /\ Cardinality(S) <= W \div 100) THEN Same(S)
  ELSE IF W >= 100 THEN [may |-> {t \in S : Cardinality({u \in S : sc[u] > sc[t]}) < W \div 100},
                         must |-> {t \in S : Cardinality({u \in S : sc[u] >= sc[t]}) <= W \div 100}]
  ELSE Same({t \in S : sc[t] >= best - (CASE W = 50 -> 2 [] W = 10 -> 9 [] W = 1 -> 18)})
PlainOpt(C, l, r) ==
  IF Affected(C, l, r) THEN Same(IF <<l, r>> \in DOMAIN C.cons THEN {C.cons[<<l, r>>]} ELSE {})
  ELSE IF l = r /\ Unseen(C, l) THEN Same({<<1>>})
  ELSE Shortlist(C, Span(C, l, r), Known(C.m, Span(C, l, r)))
(* Reference words still to be produced. *)
Rest(C, st) == SubSeq(C.ref, st.n + 1, Len(C.ref))
LenOk(C, l, r, n) == Abs(n - (r - l + 1)) <= C.par.E
NumGaps(C, c) == Cardinality({x \in (1..J(C)) \ c : x = 1 \/ (x - 1) \in c})
Last(C, st, l, r) == Cardinality(st.c) + (r - l + 1) = J(C)
RefOpt(C, st, l, r) ==
  LET rem == Rest(C, st) k == IF C.par.U = 0 THEN 1 ELSE NumGaps(C, st.c \cup (l..r)) IN
  IF Last(C, st, l, r) THEN Same(IF LenOk(C, l, r, Len(rem)) THEN {rem} ELSE {})
  ELSE Shortlist(C, Span(C, l, r), {SubSeq(rem, 1, n) : n \in {x \in 1..(Len(rem) - k) : LenOk(C, l, r, x)}})
VerOpt(C, st, l, r) ==
  LET o == PlainOpt(C, l, r)
      keep(S) == {t \in S : Prefix(t, Rest(C, st)) /\ (Last(C, st, l, r) => t = Rest(C, st))}
  IN [may |-> keep(o.may), must |-> keep(o.must)]
(* Words that a partially typed last word may be completed to. *)
StrPrefix(a, b) == b \in {a} \cup (CASE a = 3 -> {4, 5, 10, 11} [] a = 4 -> {5, 11} [] a = 6 -> {7} [] OTHER -> {})
Extends(C, rem, t) ==
  /\ Len(t) >= Len(rem) /\ t # rem
  /\ \A i \in 1..(Len(rem) - 1) : t[i] = rem[i]
  /\ t[Len(rem)] = rem[Len(rem)] \/ (~C.blank /\ StrPrefix(rem[Len(rem)], t[Len(rem)]))
PrefixOpt(C, st, l, r) ==
  IF st.n >= Len(C.ref) THEN PlainOpt(C, l, r)
  ELSE LET rem == Rest(C, st) s == Span(C, l, r)
           ext == {t \in Known(C.m, s) : Extends(C, rem, t)}
           part == IF Last(C, st, l, r) THEN {} ELSE {SubSeq(rem, 1, n) : n \in {x \in 1..(Len(rem) - 1) : LenOk(C, l, r, x)}}
       IN Shortlist(C, s, ext \cup part \cup {rem})
Opt(C, st, l, r) == CASE C.mode = "plain" -> C.opt[<<l, r>>]
                      [] C.mode = "ref" -> RefOpt(C, st, l, r)
                      [] C.mode = "ver" -> VerOpt(C, st, l, r)
                      [] C.mode = "prefix" -> PrefixOpt(C, st, l, r)
----------------------------------------------------------------------------
Succ(C, st, l, r, t, h) == [c |-> st.c \cup (l..r), e |-> r, h |-> h, n |-> st.n + Len(t)]
StepTo(C, st, l, r, t) == LET x == LmRun(C.m, st.h, t)
                              cm == StepComps(C.m, J(C), st, l, r, Span(C, l, r), t, x[1])
                          IN [p |-> st, q |-> Succ(C, st, l, r, t, x[2]), c |-> cm, d |-> Dot(C.w, cm), l |-> l, r |-> r, t |-> t]
Trans(C, st) == UNION {{StepTo(C, st, p[1], p[2], t) : t \in Opt(C, st, p[1], p[2]).may} : p \in Spans(C, st)}
Complete(C, st) == Cardinality(st.c) = J(C)
Final(C, st) == Dot(C.w, FinalComps(C.m, st))
Init0(C) == Dot(C.w, InitComps(C.m))
(* All reachable states with the best score of a derivation leading there, and *)
(* all derivation steps (dynamic programming over the number of covered words).*)
RECURSIVE Levels(_, _, _, _)
Levels(C, k, best, T) ==
  IF k >= J(C) THEN [best |-> best, T |-> T]
  ELSE LET front == {p \in DOMAIN best : Cardinality(p.c) = k}
           tr == TLCEval(UNION {Trans(C, p) : p \in front})
           qs == TLCEval({t.q : t \in tr})
           nb == TLCEval([q \in qs |-> MaxOf({best[t.p] + t.d : t \in {x \in tr : x.q = q}} \cup (IF q \in DOMAIN best THEN {best[q]} ELSE {}))])
       IN Levels(C, k + 1, TLCEval(nb @@ best), T \cup tr)
Search(C, st, base) == TLCEval(Levels(C, Cardinality(st.c), TLCEval(st :> base), {}))
Finals(C, D) == {q \in DOMAIN D.best : Complete(C, q)}
Ambiguous(C, D) == \E p \in DOMAIN D.best : \E x \in Spans(C, p) : LET o == Opt(C, p, x[1], x[2]) IN o.may # o.must
(* A derivation given as spans and target cuts: its steps must be allowed.     *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(C, free, st, acc, segs, cuts, ws) ==
  IF segs = <<>> THEN [ok |-> Len(ws) = st.n, st |-> st, acc |-> acc]
  ELSE LET l == segs[1][1] r == segs[1][2]
           t == SubSeq(ws, st.n + 1, cuts[1])
       IN IF /\ (free > 0 \/ <<l, r>> \in Spans(C, st))
             /\ cuts[1] <= Len(ws) /\ cuts[1] >= st.n
             /\ (free > 0 \/ t \in Opt(C, st, l, r).may)
          THEN LET s == StepTo(C, st, l, r, t) IN Walk(C, free - 1, s.q, AddV(acc, s.c), Tail(segs), Tail(cuts), ws)
          ELSE [ok |-> FALSE, st |-> st, acc |-> acc]
Text(C, segs, cuts, ws) ==
  [i \in 1..Len(ws) |->
     IF C.mode \in {"ref", "ver"} THEN (IF i <= Len(C.ref) THEN C.ref[i] ELSE ws[i])
     ELSE IF ws[i] # 1 THEN ws[i]
     ELSE IF C.mode = "prefix" /\ i <= Len(C.ref) THEN C.ref[i]
     ELSE LET k == CHOOSE k \in 1..Len(cuts) : cuts[k] >= i /\ (k = 1 \/ cuts[k - 1] < i) IN 1000 + C.src[segs[k][1]]]
(* A complete result (record r of the harness) is a derivation with its exact  *)
(* score, components and text.  free: steps given by the caller.               *)
Legal(C, free, r) ==
  /\ Len(r.cuts) = Len(r.segs)
  /\ LET w == Walk(C, free, Start(C), InitComps(C.m), r.segs, r.cuts, r.ws)
         cm == AddV(w.acc, FinalComps(C.m, w.st))
     IN /\ w.ok /\ Complete(C, w.st)
        /\ r.comps = cm /\ r.sc = Dot(C.w, cm)
        /\ r.txt = Text(C, r.segs, r.cuts, r.ws)
EndState(C, r) == Walk(C, Len(r.segs), Start(C), Zero, r.segs, r.cuts, r.ws).st
IsNull(r) == r.segs = <<>> /\ r.ws = <<>>
==============================================================================
