------------------------------- MODULE TDecGen -------------------------------
(* Programs and schedules for the real engine: a program is chosen first, then the order in which the threads of TDecLocks move is recorded. *)
EXTENDS TDecLocks, TLC, Json

VARIABLES hist, prog0, started
Cnt == CHOOSE k \in LENS : \A z \in LENS : z <= k
GInit == /\ prog0 = [t \in T |-> <<>>] /\ started = FALSE /\ hist = <<>>
         /\ prog = prog0 /\ pc = [t \in T |-> "idle"] /\ u = [t \in T |-> 0]
         /\ amut = 0 /\ nmut = 0 /\ umut = 0 /\ pmut = [x \in USERS |-> 0]
         /\ running = 0 /\ waiting = {} /\ known = {} /\ ver = 0 /\ rd = [t \in T |-> 0]
Choose == /\ ~started /\ hist' = hist
          /\ \/ \E t \in T, o \in OPS, x \in USERS : /\ Len(prog0[t]) < Cnt /\ prog0' = [prog0 EXCEPT ![t] = Append(@, [op |-> o, u |-> x])]
                                                      /\ UNCHANGED <<vars, started>>
             \/ /\ \A t \in T : Len(prog0[t]) \in LENS
                /\ started' = TRUE /\ prog' = prog0
                /\ UNCHANGED <<prog0, pc, u, amut, nmut, umut, pmut, running, waiting, known, ver, rd>>
Move == started /\ \E t \in T : Step(t) /\ hist' = Append(hist, t - 1) /\ UNCHANGED <<prog0, started>>
GSpec == GInit /\ [][Choose \/ Move]_<<vars, hist, prog0, started>>
Emit == IF started /\ AllDone' THEN PrintT("BEH " \o ToJson([p |-> prog0, s |-> hist'])) ELSE TRUE
=============================================================================
