------------------------------- MODULE SentMC -------------------------------
(* (1) A reader with one line of each file at a time delivers the n'th pair in  *)
(* any order of access; (2) conservation of counts over training histories;    *)
(* (3) the orders of training of the program.                                  *)
EXTENDS Sent, TLC, Json
CONSTANTS Gen, MaxLen, What
VARIABLES ps, cur, pos, m, used, hist
vars == <<ps, cur, pos, m, used, hist>>
P(s, t, c) == [s |-> s, t |-> t, c |-> c]
Corpus == <<P(<<1>>, <<1, 2>>, 4), P(<<1, 2>>, <<2, 2>>, 6), P(<<>>, <<1>>, 4), P(<<2>>, <<3>>, 1)>>
Lim == 3
L(e) == hist' = IF Gen THEN Append(hist, e) ELSE <<>>
Init == ps = Corpus /\ cur = 0 /\ pos = 1 /\ used = {} /\ hist = <<>> /\ (\E c \in {-1, 0, 1, 2} : m = Fresh(c) /\ (Gen => c = -1))
\* (1) cur: number of the pair the reader stands on; pos: lines read. Reads forward, or from the start.
Nth == \E n \in 0..(Len(ps) - 1) :
         /\ IF cur > n THEN cur' = n /\ pos' = n + 1
            ELSE cur' = n /\ pos' = pos + (n - cur)
         /\ UNCHANGED <<ps, m, used>> /\ L([op |-> "nth", n |-> n])
\* (2)
TrainStep == \E a \in 0..(Len(ps) - 1) : \E b \in a..(Len(ps) - 1) :
         /\ m' = Train(m, ps, a, b, Lim) /\ used' = used \cup a..b
         /\ UNCHANGED <<ps, cur, pos>> /\ L([op |-> "train", a |-> a, b |-> b])
BatchStep == \E a \in 0..(Len(ps) - 1) : \E b \in a..(Len(ps) - 1) :
         /\ m' = Batch(m, ps, a, b, Lim) /\ used' = a..b
         /\ UNCHANGED <<ps, cur, pos>> /\ L([op |-> "batch", a |-> a, b |-> b])
CapStep == \E c \in {-1, 0, 1, 2} : m' = SetCap(m, c) /\ UNCHANGED <<ps, cur, pos, used>> /\ Gen /\ L([op |-> "cap", n |-> c])
Next == Len(hist) < MaxLen /\ \/ What = "read" /\ Nth
                              \/ What = "train" /\ (TrainStep \/ (BatchStep /\ (Gen \/ m.cap = 0)) \/ CapStep)
Setup == [op |-> "setup", model |-> "ibm1"]
Adds == [i \in DOMAIN Corpus |-> [op |-> "add", s |-> Corpus[i].s, t |-> Corpus[i].t, c |-> Corpus[i].c]]
Files == <<[op |-> "files", f |-> "a", s |-> FilesOf(Corpus).s, t |-> FilesOf(Corpus).t, c |-> FilesOf(Corpus).c], [op |-> "read", f |-> "a", c |-> TRUE]>>
Emit == (Gen /\ Len(hist') = MaxLen) => PrintT("BEH " \o ToJson(<<Setup>> \o (IF What = "read" THEN Files ELSE Adds) \o hist'))
Bound == TLCGet("level") <= 4
Spec == Init /\ [][Next]_vars
SumSeq(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
MassOf(S, w) == FoldSet(LAMBDA n, a : a + (IF Fits(ps[n + 1], Lim) THEN ps[n + 1].c * Cardinality({i \in DOMAIN ps[n + 1].t : ps[n + 1].t[i] = w}) ELSE 0), 0, S)
Inv == /\ pos = cur + 1
       \* with all expected values retained, each pair counts once however often it was trained
       /\ (m.cap = -1 /\ ~Gen) => \A w \in 1..3 : At(m.mass, w, 0) = MassOf(used, w)
       /\ \A w \in 1..3 : At(m.mass, w, 0) >= MassOf(used, w)
       /\ m.cap >= 0 => Len(m.kept) <= m.cap
       \* the counts of the lengths and of the words agree
       /\ FoldSet(LAMBDA k, a : a + m.am[k], 0, DOMAIN m.am) = FoldSet(LAMBDA k, a : a + m.mass[k], 0, DOMAIN m.mass)
(* (3) *)
Modes(n) == [mode : {"batch", "incr", "mini", "eb"}, n : 1..3, mb : 1..(n + 1), r : {-1}, c : BOOLEAN, l : {FALSE}]
         \cup [mode : {"inter"}, n : 1..3, mb : {1}, r : 1..4, c : {FALSE}, l : {FALSE}]
Corp(n) == [i \in 1..n |-> P([j \in 1..(((i - 1) % 3) + 1) |-> 1], <<i>>, 4)]
Trained(q, n) == SumSeq([k \in DOMAIN q |-> IF q[k][1] <= n /\ n <= q[k][2] THEN 1 ELSE 0])
Schedules == \A n \in 1..5 : \A o \in Modes(n) :
    LET q == Ranges(n, o) IN
    /\ \A k \in 0..(n - 1) : Trained(q, k) = o.n + (IF o.c /\ o.mode # "eb" THEN 1 ELSE 0)
    /\ LET x == Program(Corp(n), o, 9) IN \A k \in 1..n : x.mass[k] = 4
ASSUME What = "sched" => Schedules
=============================================================================
