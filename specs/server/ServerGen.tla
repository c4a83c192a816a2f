------------------------------ MODULE ServerGen ------------------------------
(* What the clients did in a run of Server (kinds of requests and order of their actions), to be replayed against the real server. *)
EXTENDS Server, TLC, Json

VARIABLES hist, quitters
GInit == /\ Init /\ hist = <<>>
         /\ Cardinality({c \in CONNS : kind[c] = "end"}) <= 1 /\ Cardinality({c \in CONNS : kind[c] = "junk"}) <= 1
         /\ quitters \in {q \in SUBSET CONNS : Cardinality(q) <= 2}
Act(c, n) == hist' = Append(hist, <<c, n>>)
Move(c) == \/ (Open(c) /\ Act(c, "open"))
           \/ (Half(c) /\ Act(c, "half"))
           \/ (Header(c) /\ Act(c, "header"))
           \/ (Body(c) /\ Act(c, "body"))
           \/ ((c \in quitters \/ (phase = "exit" /\ c \notin users)) /\ Leave(c) /\ Act(c, "leave"))
           \/ (c \in users /\ Recv(c) /\ Act(c, "recv"))
GNext == /\ UNCHANGED quitters
         /\ \/ \E c \in CONNS : Move(c)
            \/ /\ hist' = hist
               /\ \/ \E c \in CONNS : Main(c) \/ Thread(c)
                  \/ Accept \/ Stop \/ Clear \/ Exit
GSpec == GInit /\ [][GNext]_<<vars, hist, quitters>>
AllOver == \A c \in CONNS : cl[c] \in {"done", "left"}
Emit == IF (AllOver' /\ ~AllOver) \/ (Over' /\ ~Over) THEN PrintT("BEH " \o ToJson([k |-> kind, s |-> hist'])) ELSE TRUE
=============================================================================
