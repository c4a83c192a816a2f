----------------------------- MODULE ServerTrace -----------------------------
(* Recorded sessions of clients with the real server.  Every complete request gets one well-formed reply, which is what the engine (TDec) answers  *)
(* if the requests of all connections are executed one at a time in some order compatible with what the clients saw.  A request whose client left *)
(* after sending it completely may be executed or not; one that was not completed has no effect.  The server keeps running until a client asks it *)
(* to end; then it completes the running requests and exits.  What it stored on disk is what it knows when started again.                         *)
EXTENDS TDec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, i, C, pend, ending
vars == <<h, l, i, C, pend, ending>>

Tr == Traces[h]
Ev == Tr[l]
Users == 0..7
Fld(e, k, dflt) == IF k \in DOMAIN e THEN e[k] ELSE dflt

\* The request sent by the call event at position j, with the result which will be observed
Fate(evs, j) == LET S == {k \in (j + 1)..Len(evs) : evs[k].e \in {"ret", "left"} /\ evs[k].t = evs[j].t}
                IN IF S = {} THEN [e |-> "lost"] ELSE evs[CHOOSE k \in S : \A z \in S : k <= z]
Req(evs, j) == LET e == evs[j]
                   f == Fate(evs, j)
               IN [t |-> e.t, op |-> e.op, u |-> e.u, x |-> Fld(e, "x", ""), y |-> Fld(e, "y", ""), fate |-> IF f.e = "left" /\ f.full THEN "gone" ELSE f.e,
                   res |-> [r |-> Fld(f, "r", ""), n |-> Fld(f, "n", 0)]]

\* What a request does when nobody waits for its result (the result itself must not matter for what follows)
Unseen(s, q) == CASE q.op \in {"tr", "cov", "end", "junk"} -> {s}
                  [] q.op = "reset" -> Effect(s, q, 0)
                  [] q.op = "print" -> Effect(s, q, 0)
                  [] q.op = "train" -> Effect(s, [q EXCEPT !.res.n = IF q.x = "" \/ q.y = "" THEN 1 ELSE 0], 0)
                  [] q.op = "ecm" -> Effect(s, q, 0)
                  [] OTHER -> {}
Does(s, q) == CASE q.fate = "gone" -> Unseen(s, q)
                [] q.fate # "ret" -> {}
                [] q.op = "end" -> IF q.res.n = 0 THEN {s} ELSE {}
                [] q.op = "junk" -> {s}
                [] OTHER -> Effect(s, q, 0)
Succs(P, c) == UNION {{[s |-> s2, dn |-> c.dn \cup {q.t}] : s2 \in Does(c.s, q)} : q \in {z \in P : z.t \notin c.dn}}
RECURSIVE Closure(_, _, _)
Closure(P, all, new) ==
  LET nxt == TLCEval(UNION {Succs(P, c) : c \in new} \ all)
  IN IF nxt = {} THEN all ELSE Closure(P, all \cup nxt, nxt)
After(t) == {[c EXCEPT !.dn = @ \ {t}] : c \in {d \in Closure(pend, C, C) : t \in d.dn}}
Answered(P) == \A q \in P : q.fate = "gone"

Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ i = 0 /\ C = {[s |-> Start(Users), dn |-> {}]} /\ pend = {} /\ ending = FALSE
Event ==
  IF i = Len(Ev.ev) THEN (IF Answered(pend) THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ i' = 0 /\ UNCHANGED <<h, C, pend, ending>>
  ELSE
  LET evs == Ev.ev
      e == evs[i + 1]
  IN /\ i' = i + 1 /\ UNCHANGED <<h, l>>
     /\ CASE e.e = "call" -> pend' = pend \cup {Req(evs, i + 1)} /\ UNCHANGED <<C, ending>>
          [] e.e = "ret" -> LET D == TLCEval(After(e.t))
                                q == CHOOSE z \in pend : z.t = e.t
                            IN /\ (IF D # {} THEN TRUE ELSE FALSE) /\ C' = D
                               /\ pend' = pend \ {q} /\ ending' = (ending \/ q.op = "end")
          [] e.e = "left" -> IF e.full THEN ending' = (ending \/ \E q \in pend : q.t = e.t /\ q.op = "end") /\ UNCHANGED <<pend, C>>
                             ELSE pend' = {q \in pend : q.t # e.t} /\ UNCHANGED <<C, ending>>
          \* the process ended: only after it was asked to, when everybody had been answered, and in order
          [] e.e = "exit" -> /\ (IF ending /\ e.n = 0 /\ Answered(pend) THEN TRUE ELSE FALSE)
                             /\ C' = TLCEval({[c EXCEPT !.dn = {}] : c \in Closure(pend, C, C)}) /\ pend' = {} /\ UNCHANGED ending
          \* closed without a reply: only if the connection was opened after another one which asked the server to end
          [] e.e = "refused" -> /\ (IF \E a, b \in 1..i : /\ a < b /\ evs[a].e = "call" /\ evs[a].op = "end" /\ evs[b].e = "call" /\ evs[b].t = e.t
                                                         /\ Fate(evs, a).e \in {"ret", "left"} THEN TRUE ELSE FALSE)
                                /\ pend' = {q \in pend : q.t # e.t} /\ UNCHANGED <<C, ending>>
          [] OTHER -> FALSE     \* malformed, noreply, died, noexit
Step ==
  /\ l <= Len(Tr)
  /\ CASE Ev.op = "start" -> /\ Ev.n = 0 /\ l' = l + 1 /\ ending' = FALSE
                             /\ C' = (IF l = 1 THEN C ELSE TLCEval({[c EXCEPT !.s = Reloaded(c.s)] : c \in C})) /\ UNCHANGED <<h, i, pend>>
       [] Ev.op \in {"run", "par", "end"} -> Event
       [] OTHER -> FALSE
Done == l > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
