------------------------------ MODULE TDecLocks ------------------------------
(* The locking protocol of ThotDecoder.  Requests which use the models (translations: "non-atomic") run together; those which change them, or      *)
(* the set of users ("atomic"), run alone.  Each action is what a thread does between two scheduling points.                                      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N,          \* threads
          LENS,       \* lengths of their programs
          USERS, OPS  \* "tr", "train", "init", "badinit", "rel", "print"

VARIABLES prog,       \* requests each thread still has to issue
          pc, u,      \* control state and user of the current request of each thread
          amut, nmut, umut, pmut,   \* owners of the mutexes (0 = free)
          running,    \* non-atomic requests in progress
          waiting,    \* threads blocked on the condition variable
          known,      \* users with data
          ver, rd     \* version of the models; version seen by each thread when it began to use them
vars == <<prog, pc, u, amut, nmut, umut, pmut, running, waiting, known, ver, rd>>
T == 1..N
Op(t) == prog[t][1].op

Programs == UNION {[1..k -> [op : OPS, u : USERS]] : k \in LENS}
Init == /\ prog \in [T -> Programs]
        /\ pc = [t \in T |-> "idle"] /\ u = [t \in T |-> 0]
        /\ amut = 0 /\ nmut = 0 /\ umut = 0 /\ pmut = [x \in USERS |-> 0]
        /\ running = 0 /\ waiting = {} /\ known = {} /\ ver = 0 /\ rd = [t \in T |-> 0]

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Atomic(o) == o \in {"train", "init", "badinit", "rel"}

Step(t) ==
  CASE pc[t] = "idle" -> /\ prog[t] # <<>>
                            /\ u' = [u EXCEPT ![t] = prog[t][1].u]
                            /\ Go(t, IF Op(t) = "tr" THEN "n_lock" ELSE "a_lock")
                            /\ UNCHANGED <<prog, amut, nmut, umut, pmut, running, waiting, known, ver, rd>>
       \* non-atomic requests
       [] pc[t] = "n_lock" -> nmut = 0 /\ nmut' = t /\ Go(t, "n_inc") /\ UNCHANGED <<prog, u, amut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "n_inc" -> running' = running + 1 /\ nmut' = 0 /\ Go(t, "n_idx") /\ UNCHANGED <<prog, u, amut, umut, pmut, waiting, known, ver, rd>>
       [] pc[t] = "n_idx" -> umut = 0 /\ umut' = t /\ Go(t, "n_idx2") /\ UNCHANGED <<prog, u, amut, nmut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "n_idx2" -> umut' = 0 /\ known' = known \cup {u[t]} /\ Go(t, "n_user") /\ UNCHANGED <<prog, u, amut, nmut, pmut, running, waiting, ver, rd>>
       [] pc[t] = "n_user" -> pmut[u[t]] = 0 /\ pmut' = [pmut EXCEPT ![u[t]] = t] /\ rd' = [rd EXCEPT ![t] = ver] /\ Go(t, "n_use")
                              /\ UNCHANGED <<prog, u, amut, nmut, umut, running, waiting, known, ver>>
       [] pc[t] = "n_use" -> pmut' = [pmut EXCEPT ![u[t]] = 0] /\ Go(t, "n_lock2") /\ UNCHANGED <<prog, u, amut, nmut, umut, running, waiting, known, ver, rd>>
       [] pc[t] = "n_lock2" -> nmut = 0 /\ nmut' = t /\ Go(t, "n_dec") /\ UNCHANGED <<prog, u, amut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "n_dec" -> /\ running' = running - 1 /\ nmut' = 0
                             /\ waiting' = IF running = 1 THEN {} ELSE waiting
                             /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ Go(t, "idle") /\ UNCHANGED <<u, amut, umut, pmut, known, ver, rd>>
       \* atomic requests (print does not wait for those in progress)
       [] pc[t] = "a_lock" -> amut = 0 /\ amut' = t /\ Go(t, IF Atomic(Op(t)) THEN "a_lock2" ELSE "p_use")
                              /\ UNCHANGED <<prog, u, nmut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_lock2" -> nmut = 0 /\ nmut' = t /\ Go(t, "a_test") /\ UNCHANGED <<prog, u, amut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_test" -> IF running > 0
                              THEN nmut' = 0 /\ waiting' = waiting \cup {t} /\ Go(t, "a_wait") /\ UNCHANGED <<prog, u, amut, umut, pmut, running, known, ver, rd>>
                              ELSE Go(t, "a_idx") /\ UNCHANGED <<prog, u, amut, nmut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_wait" -> t \notin waiting /\ nmut = 0 /\ nmut' = t /\ Go(t, "a_test")
                              /\ UNCHANGED <<prog, u, amut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_idx" -> umut = 0 /\ umut' = t /\ Go(t, "a_idx2") /\ UNCHANGED <<prog, u, amut, nmut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_idx2" -> /\ umut' = 0 /\ known' = (IF Op(t) = "rel" THEN known \ {u[t]} ELSE known \cup {u[t]}) /\ Go(t, "a_use")
                              /\ rd' = [rd EXCEPT ![t] = ver] /\ UNCHANGED <<prog, u, amut, nmut, pmut, running, waiting, ver>>
       [] pc[t] = "a_use" -> ver' = (IF Op(t) = "train" THEN ver + 1 ELSE ver) /\ Go(t, "a_unlock")
                             /\ UNCHANGED <<prog, u, amut, nmut, umut, pmut, running, waiting, known, rd>>
       [] pc[t] = "a_unlock" -> nmut' = 0 /\ Go(t, "a_unlock2") /\ UNCHANGED <<prog, u, amut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "a_unlock2" -> amut' = 0 /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ Go(t, "idle")
                                 /\ UNCHANGED <<u, nmut, umut, pmut, running, waiting, known, ver, rd>>
       [] pc[t] = "p_use" -> Go(t, "a_unlock2") /\ UNCHANGED <<prog, u, amut, nmut, umut, pmut, running, waiting, known, ver, rd>>

AllDone == \A t \in T : pc[t] = "idle" /\ prog[t] = <<>>
Next == (\E t \in T : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

Using == {t \in T : pc[t] = "n_use"}
Changing == {t \in T : pc[t] \in {"a_idx", "a_idx2", "a_use"}}
Exclusive == Changing # {} => (Cardinality(Changing) = 1 /\ Using = {})
OneUserAtATime == \A s, t \in Using : s # t => u[s] # u[t]
Stable == \A t \in Using : rd[t] = ver /\ u[t] \in known        \* the models (and the data of the user) do not change while they are used
Ends == <>AllDone
\* Deadlock freedom: TLC's deadlock check (a finished system stutters)

=============================================================================
