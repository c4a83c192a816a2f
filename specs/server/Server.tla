------------------------------- MODULE Server -------------------------------
(* The translation server: one request per connection.  The main thread accepts connections in the order in which they were opened, reads the     *)
(* header (kind of request and user) of each and starts a thread which reads the rest, executes the request and replies.  After a request to end  *)
(* the server nothing else is accepted, running requests are completed, the models are cleared and the server ends.                               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS CONNS, OPS    \* connections; kinds of request: "ask", "junk" (unknown kind: closed without a reply), "end"

VARIABLES kind,         \* kind of request of each connection
          cl,           \* client: "new", "open" (nothing sent), "half" (part of the header), "header", "body" (all sent), "done" (reply read), "left"
          sv,           \* server: "none", "queue", "main" (header being read), "read" (thread reads the rest), "work", "closed"
          replies,      \* replies written on each connection
          queue, ended, nthreads, phase, users
vars == <<kind, cl, sv, replies, queue, ended, nthreads, phase, users>>

Init == /\ kind \in [CONNS -> OPS]
        /\ cl = [c \in CONNS |-> "new"] /\ sv = [c \in CONNS |-> "none"] /\ replies = [c \in CONNS |-> 0]
        /\ queue = <<>> /\ ended = FALSE /\ nthreads = 0 /\ phase = "run" /\ users = {}

EndSent == \E c \in CONNS : kind[c] = "end" /\ cl[c] \notin {"new", "open", "half"}
\* Clients
Open(c) == cl[c] = "new" /\ ~EndSent /\ phase = "run" /\ cl' = [cl EXCEPT ![c] = "open"] /\ queue' = Append(queue, c) /\ sv' = [sv EXCEPT ![c] = "queue"]
           /\ UNCHANGED <<kind, replies, ended, nthreads, phase, users>>
Half(c) == cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "half"] /\ UNCHANGED <<kind, sv, replies, queue, ended, nthreads, phase, users>>
Header(c) == cl[c] \in {"open", "half"} /\ cl' = [cl EXCEPT ![c] = "header"] /\ UNCHANGED <<kind, sv, replies, queue, ended, nthreads, phase, users>>
Body(c) == cl[c] = "header" /\ cl' = [cl EXCEPT ![c] = "body"] /\ UNCHANGED <<kind, sv, replies, queue, ended, nthreads, phase, users>>
Leave(c) == cl[c] \in {"open", "half", "header", "body"} /\ cl' = [cl EXCEPT ![c] = "left"] /\ UNCHANGED <<kind, sv, replies, queue, ended, nthreads, phase, users>>
Recv(c) == cl[c] = "body" /\ sv[c] = "closed" /\ cl' = [cl EXCEPT ![c] = "done"] /\ UNCHANGED <<kind, sv, replies, queue, ended, nthreads, phase, users>>

\* Main thread
Busy == \E c \in CONNS : sv[c] = "main"
Accept == /\ phase = "run" /\ ~ended /\ ~Busy /\ queue # <<>>
          /\ sv' = [sv EXCEPT ![Head(queue)] = "main"] /\ queue' = Tail(queue) /\ UNCHANGED <<kind, cl, replies, ended, nthreads, phase, users>>
ReadHeader(c, got) ==    \* got: the header arrived before the client left
  /\ sv[c] = "main"
  /\ IF got THEN sv' = [sv EXCEPT ![c] = "read"] /\ nthreads' = nthreads + 1 /\ ended' = (ended \/ kind[c] = "end") /\ users' = users \cup {c}
            ELSE sv' = [sv EXCEPT ![c] = "closed"] /\ UNCHANGED <<nthreads, ended, users>>
  /\ UNCHANGED <<kind, cl, replies, queue, phase>>
Main(c) == CASE cl[c] \in {"header", "body", "done"} -> ReadHeader(c, TRUE)
             [] cl[c] = "left" -> \E g \in BOOLEAN : ReadHeader(c, g)
             [] OTHER -> FALSE      \* waits for the client
Stop == phase = "run" /\ ended /\ phase' = "wait" /\ UNCHANGED <<kind, cl, sv, replies, queue, ended, nthreads, users>>
Clear == phase = "wait" /\ nthreads = 0 /\ phase' = "cleared" /\ UNCHANGED <<kind, cl, sv, replies, queue, ended, nthreads, users>>
Exit == phase = "cleared" /\ phase' = "exit" /\ sv' = [c \in CONNS |-> IF sv[c] = "queue" THEN "closed" ELSE sv[c]] /\ queue' = <<>>
        /\ UNCHANGED <<kind, cl, replies, ended, nthreads, users>>

\* Request threads
ReadRest(c) == /\ sv[c] = "read"
               /\ \/ cl[c] \in {"body", "left"} /\ sv' = [sv EXCEPT ![c] = "work"] /\ UNCHANGED nthreads
                  \/ cl[c] = "left" /\ sv' = [sv EXCEPT ![c] = "closed"] /\ nthreads' = nthreads - 1
               /\ UNCHANGED <<kind, cl, replies, queue, ended, phase, users>>
Work(c) == /\ sv[c] = "work" /\ sv' = [sv EXCEPT ![c] = "closed"] /\ nthreads' = nthreads - 1
           /\ replies' = [replies EXCEPT ![c] = IF kind[c] = "junk" THEN @ ELSE @ + 1]
           /\ UNCHANGED <<kind, cl, queue, ended, phase, users>>

Client(c) == Open(c) \/ Half(c) \/ Header(c) \/ Body(c) \/ Leave(c) \/ Recv(c)
Thread(c) == ReadRest(c) \/ Work(c)
Over == phase = "exit" /\ \A c \in CONNS : cl[c] \in {"new", "done", "left"}
Next == (\E c \in CONNS : Client(c) \/ Main(c) \/ Thread(c)) \/ Accept \/ Stop \/ Clear \/ Exit \/ UNCHANGED vars
\* Clients which have opened a connection finish their request or leave, and read the reply
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Accept) /\ WF_vars(Stop) /\ WF_vars(Clear) /\ WF_vars(Exit)
        /\ \A c \in CONNS : WF_vars(Main(c)) /\ WF_vars(Thread(c)) /\ WF_vars(Header(c)) /\ WF_vars(Body(c)) /\ WF_vars(Recv(c))

Working == {c \in CONNS : sv[c] \in {"read", "work"}}
NotCleared == phase \in {"cleared", "exit"} => Working = {}       \* no request runs on models which were cleared
AtMostOne == \A c \in CONNS : replies[c] <= 1 /\ (replies[c] = 1 => kind[c] # "junk")
Threads == nthreads = Cardinality(Working)
Complete == phase = "exit" => \A c \in CONNS : cl[c] = "body" => (sv[c] = "closed" /\ (kind[c] = "junk" \/ replies[c] = 1 \/ c \notin users))
\* Whoever sends a complete request is answered, unless the server was asked to end before
Answered == \A c \in CONNS : (cl[c] = "body" /\ ~EndSent) ~> (cl[c] \in {"done", "left"} \/ ended)
AnsweredIfAccepted == \A c \in CONNS : (cl[c] = "body" /\ c \in users) ~> (cl[c] = "left" \/ (cl[c] = "done" /\ (kind[c] = "junk" \/ replies[c] = 1)))
Ends == \A c \in CONNS : (kind[c] = "end" /\ c \in users) ~> (phase = "exit")
=============================================================================
