------------------------------ MODULE TDecTrace ------------------------------
(* Checks recorded runs of the real engine against TDec: a history is accepted if the answers of its concurrent requests can be explained by      *)
(* executing the requests one at a time.  C is the set of all explanations of what was observed so far: the state of the engine and the threads  *)
(* whose current request has already taken effect.                                                                                                *)
EXTENDS TDec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, i, C, call, act
vars == <<h, l, i, C, call, act>>

Tr == Traces[h]
Ev == Tr[l]
Users == 0..7
Threads == 0..7
InitRes == IF "nowg" \in DOMAIN Tr[1] THEN 1 ELSE 0

Fld(e, k, dflt) == IF k \in DOMAIN e THEN e[k] ELSE dflt
\* The request of the call event at position j of the run, with the result its return event (if any) carries
RetOf(evs, j) == LET S == {k \in (j + 1)..Len(evs) : evs[k].e = "ret" /\ evs[k].t = evs[j].t}
                 IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A z \in S : k <= z
Req(evs, j) == LET e == evs[j]
                   k == RetOf(evs, j)
                   r == IF k = 0 THEN [e |-> "none"] ELSE evs[k]
               IN [op |-> e.op, u |-> e.u, x |-> Fld(e, "x", ""), y |-> Fld(e, "y", ""), res |-> [r |-> Fld(r, "r", ""), n |-> Fld(r, "n", 0)]]

Pending(c) == {t \in Threads : call[t] # 0 /\ t \notin c.dn}
Succs(evs, c) == UNION {{[s |-> s2, dn |-> c.dn \cup {t}] : s2 \in Effect(c.s, Req(evs, call[t]), InitRes)} : t \in Pending(c)}
RECURSIVE Closure(_, _, _)
Closure(evs, all, new) ==
  LET nxt == TLCEval(UNION {Succs(evs, c) : c \in new} \ all)
  IN IF nxt = {} THEN all ELSE Closure(evs, all \cup nxt, nxt)
After(evs, t) == {[c EXCEPT !.dn = @ \ {t}] : c \in {d \in Closure(evs, C, C) : t \in d.dn}}

Free == [t \in Threads |-> 0]
Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ i = 0 /\ C = {[s |-> Start(Users), dn |-> {}]} /\ call = Free /\ act = {}
Next1 == IF i = Len(Ev.ev) THEN (IF call = Free /\ act = {} THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ i' = 0 /\ UNCHANGED <<h, C, call, act>>
         ELSE
  LET evs == Ev.ev
      e == evs[i + 1]
  IN /\ i' = i + 1 /\ UNCHANGED <<h, l>>
     /\ CASE e.e = "call" -> call[e.t] = 0 /\ call' = [call EXCEPT ![e.t] = i + 1] /\ UNCHANGED <<C, act>>
          [] e.e = "ret" -> LET D == TLCEval(After(evs, e.t)) IN (IF D # {} THEN TRUE ELSE FALSE) /\ C' = D /\ call' = [call EXCEPT ![e.t] = 0] /\ UNCHANGED act
          \* the models are trained by one thread and only while nobody else uses them; a decoder is used by one thread at a time
          [] e.e = "ub" -> /\ (IF e.k = "train" THEN \A a \in act : a.t = e.t ELSE \A a \in act : a.t = e.t \/ (a.k # "train" /\ a.o # e.o))
                           /\ act' = act \cup {[t |-> e.t, k |-> e.k, o |-> e.o]} /\ UNCHANGED <<C, call>>
          [] e.e = "ue" -> act' = act \ {[t |-> e.t, k |-> e.k, o |-> e.o]} /\ UNCHANGED <<C, call>>
          [] OTHER -> FALSE        \* deadlock, race, badunlock
Step ==
  /\ l <= Len(Tr)
  /\ CASE Ev.op = "setup" -> Ev.n = 0 /\ l' = l + 1 /\ UNCHANGED <<h, i, C, call, act>>
       [] Ev.op = "reload" -> /\ Ev.n = 0 /\ l' = l + 1 /\ C' = {[c EXCEPT !.s = Reloaded(c.s)] : c \in C} /\ UNCHANGED <<h, i, call, act>>
       [] Ev.op = "run" -> "skipped" \notin DOMAIN Ev /\ Next1
       [] OTHER -> FALSE
Done == l > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
