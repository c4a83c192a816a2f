------------------------------- MODULE StackMC -------------------------------
(* All histories over a few states, classes and scores; a ghost records the    *)
(* best score offered per class since the last clear.                          *)
EXTENDS Stack, Json
CONSTANTS States, ClassesOf(_), Scores, Maxes, Emit, MaxLen
VARIABLES hist, off, gone
Op(r) == hist' = Append(hist, r)
H(s, c, sc) == [id |-> s * 100 + c * 10 + sc, st |-> s, cls |-> c, sc |-> sc]
Sc(f, k) == IF k \in DOMAIN f THEN f[k].sc ELSE -1
Up(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k /\ Sc(f, k) < x.sc THEN x ELSE f[y]]
MCInit == StackInit /\ hist = <<>> /\ off = <<>> /\ gone = <<>>
MCNext ==
  \/ \E s \in States, sc \in Scores, r \in BOOLEAN : \E c \in ClassesOf(s) :
       Push(H(s, c, sc), r) /\ off' = Up(off, c, H(s, c, sc)) /\ gone' = gone /\ Op([op |-> "push", h |-> H(s, c, sc)])
  \/ \E x \in stk : Pop(x) /\ off' = off /\ gone' = Up(gone, x.cls, x) /\ Op([op |-> "pop"])
  \/ \E n \in Maxes : n # max /\ stk = {} /\ SetMax(n) /\ off' = off /\ gone' = gone /\ Op([op |-> "max", n |-> n])
  \/ SetBf(~bf) /\ off' = off /\ gone' = gone /\ Op([op |-> "bf", b |-> ~bf])
  \/ ClearAll /\ off' = <<>> /\ gone' = <<>> /\ Op([op |-> "clearall"])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, off, gone>>
View == <<vars, off, gone>>
GView == vars
Short == Len(hist) <= MaxLen
EmitBehaviour == Emit => PrintT("BEH " \o ToJson(hist'))
Bounded == \A k \in Classes : Cardinality(InClass(k)) <= max
(* With room for one hypothesis per class, the best one offered is never lost:  *)
(* it is held or has been popped.  Where the class is a function of the state   *)
(* this is so in each class.                                                    *)
BestNeverLost == (0 \notin Maxes) => \A k \in DOMAIN off :
  (\A j \in DOMAIN off : off[j].sc <= off[k].sc) =>
     (\E x \in stk : x.sc >= off[k].sc) \/ (\E j \in DOMAIN gone : gone[j].sc >= off[k].sc)
BestPerClass == (0 \notin Maxes) /\ (\A s \in States : Cardinality(ClassesOf(s)) = 1) => \A k \in DOMAIN off :
     (\E x \in InClass(k) : x.sc >= off[k].sc) \/ Sc(gone, k) >= off[k].sc
==============================================================================
