-------------------------------- MODULE TDec --------------------------------
(* What the translation engine (ThotDecoder) does with one request: a function of the models it has learnt, of the models on disk and of the     *)
(* assisted-translation session of the user who asks.  Requests of all users take effect one at a time, in some order which respects the order   *)
(* in which they were issued and answered (the trace specification searches for such an order).                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Words(s) ==
  LET f == FoldLeft(LAMBDA a, i : IF Ch(s, i) = " " THEN [ws |-> IF a.w = "" THEN a.ws ELSE Append(a.ws, a.w), w |-> ""]
                                  ELSE [a EXCEPT !.w = @ \o Ch(s, i)], [ws |-> <<>>, w |-> ""], [i \in 1..Len(s) |-> i])
  IN IF f.w = "" THEN f.ws ELSE Append(f.ws, f.w)

BaseDict == {<<"s0", "t0">>, <<"s1", "t1">>}
BaseVoc == {"t0", "t1"}
NoSession == [on |-> FALSE, x |-> <<>>, d |-> {}, r |-> <<>>, pre |-> ""]
Start(users) == [d |-> BaseDict, pd |-> BaseDict, voc |-> BaseVoc, ecm |-> FALSE, known |-> {}, ses |-> [u \in users |-> NoSession]]

\* Targets of a source word; a word without any is left as it is
Targets(d, w) == {p[2] : p \in {q \in d : q[1] = w}}
Opts(d, w) == IF Targets(d, w) = {} THEN {w} ELSE Targets(d, w)
Translates(d, x, r) == Len(x) = Len(r) /\ \A i \in 1..Len(x) : r[i] \in Opts(d, x[i])
Covers(d, x, y) == Len(x) > 0 /\ Len(x) = Len(y) /\ \A i \in 1..Len(x) : y[i] \in Targets(d, x[i])

\* Ways of completing the word the user is typing (at least two characters of it)
LastWord(p) == LET w == Words(p) IN IF w = <<>> \/ Ch(p, Len(p)) = " " THEN "" ELSE w[Len(w)]
Expansions(voc, p) ==
  LET w == LastWord(p)
  IN {p} \cup (IF Len(w) < 2 THEN {} ELSE {SubSeq(p, 1, Len(p) - Len(w)) \o v \o " " : v \in {z \in voc : Len(z) > Len(w) /\ Starts(z, w)}})

\* A possible answer to a prefix (already completed): it starts with the prefix and ends as some translation of the sentence of the session does
Answer(ses, ecm, p, r) ==
  LET pw == Words(p)
      rest == SubSeq(Words(r), Len(pw) + 1, Len(Words(r)))
      m == Len(ses.x)
      n == Len(rest)
  IN /\ Starts(r, p)
     /\ n <= m
     /\ \A i \in 0..(n - 1) : rest[n - i] \in Opts(ses.d, ses.x[m - i])
     \* nothing is lost or repeated when the user accepts what the system proposed
     /\ (~ecm /\ Len(pw) <= Len(ses.r) /\ pw = SubSeq(ses.r, 1, Len(pw))) => n = m - Len(pw)

Know(s, q) == [s EXCEPT !.known = @ \cup {q.u}]

Prefixed(s, q, pre) ==     \* the user's prefix becomes pre
  LET ses == s.ses[q.u]
      s2 == Know([s EXCEPT !.ses[q.u].pre = pre], q)
  IN IF \E p \in Expansions(s.voc, pre) : IF ses.on /\ ses.x # <<>> THEN Answer(ses, s.ecm, p, q.res.r) ELSE q.res.r = p
     THEN {s2} ELSE {}

\* States in which request q with the observed result q.res may leave the engine; empty if that result is impossible in state s
Effect(s, q, initRes) ==
  CASE q.op = "tr" -> IF Translates(s.d, Words(q.x), Words(q.res.r)) THEN {Know(s, q)} ELSE {}
    [] q.op = "cov" -> IF q.res.r = (IF Covers(s.d, Words(q.x), Words(q.y)) THEN q.y ELSE "") THEN {Know(s, q)} ELSE {}
    [] q.op = "cat" -> IF Translates(s.d, Words(q.x), Words(q.res.r))
                       THEN {Know([s EXCEPT !.ses[q.u] = [on |-> TRUE, x |-> Words(q.x), d |-> s.d, r |-> Words(q.res.r), pre |-> ""]], q)} ELSE {}
    [] q.op = "add" -> Prefixed(s, q, s.ses[q.u].pre \o q.x)
    [] q.op = "pref" -> Prefixed(s, q, q.x)
    [] q.op = "reset" -> {Know([s EXCEPT !.ses[q.u].pre = ""], q)}
    [] q.op = "train" -> IF q.x = "" \/ q.y = "" THEN (IF q.res.n = 1 THEN {s} ELSE {})
                         ELSE IF q.res.n = 0 THEN {Know([s EXCEPT !.d = @ \cup {<<q.x, q.y>>}, !.voc = @ \cup {q.y}], q)} ELSE {}
    [] q.op = "ecm" -> IF q.res.n = 0 THEN {Know([s EXCEPT !.ecm = TRUE], q)} ELSE {}
    [] q.op = "init" -> IF q.res.n = initRes THEN {Know(s, q)} ELSE {}
    [] q.op = "rel" -> {[s EXCEPT !.known = @ \ {q.u}, !.ses[q.u] = NoSession]}
    [] q.op = "new" -> IF q.res.n = (IF q.u \in s.known THEN 0 ELSE 1) THEN {s} ELSE {}
    [] q.op = "print" -> IF q.res.n = 0 THEN {[s EXCEPT !.pd = s.d]} ELSE {}
    [] q.op = "weights" -> IF q.res.n = 0 THEN {s} ELSE {}
    [] OTHER -> {}

\* The engine is stopped and started again: it knows what was on disk
Reloaded(s) == [Start(DOMAIN s.ses) EXCEPT !.d = s.pd, !.pd = s.pd]
=============================================================================
