--------------------------- MODULE PhraseTableMC ---------------------------
(* Bounded instance: exhaustive check of the design, and generator of one      *)
(* implementation test per transition of the state graph.                      *)
EXTENDS PhraseTable, Json
CONSTANTS Src, Trg, Counts, MaxTotal, IncrOnly, Emit
VARIABLE hist
Op(r) == hist' = Append(hist, r)
MCInit == PTInit /\ hist = <<>>
MCNext ==
  \/ \E s \in Src, t \in Trg, c \in Counts : Incr(s, t, c) /\ Op([op |-> "incr", s |-> s, t |-> t, c |-> c])
  \/ /\ ~IncrOnly
     /\ \/ \E s \in Src, t \in Trg, c \in Counts, d \in Counts :
             c > 0 /\ d > 0 /\ AddEntry(s, t, c, d) /\ Op([op |-> "entry", s |-> s, t |-> t, c |-> c, d |-> d])
        \/ \E s \in Src, c \in Counts : c >= 0 /\ AddSrc(s, c) /\ Op([op |-> "addsrc", s |-> s, c |-> c])
        \/ \E s \in Src, t \in Trg, c \in Counts : c >= 0 /\ AddPair(s, t, c) /\ Op([op |-> "addst", s |-> s, t |-> t, c |-> c])
  \/ cst # Empty /\ Clear /\ Op([op |-> "clear"])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == vars
Bound == \A f \in {cs, ct} : \A x \in DOMAIN f : f[x] <= MaxTotal /\ f[x] >= 0
NonNeg == \A p \in DOMAIN cst : cst[p] >= 0
EmitBehaviour == Emit => PrintT("BEH " \o ToJson(hist'))
MarginalsInv == IncrOnly => Marginals
=============================================================================
