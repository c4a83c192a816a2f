-------------------------------- MODULE Stack --------------------------------
(* The decoder's hypothesis container: one bounded priority queue per          *)
(* equivalence class, with recombination through a dictionary of hypothesis    *)
(* states.  A hypothesis is [id, st (state), cls (class), sc (score)].          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stk,   \* the hypotheses held
          dict,  \* state -> [idx |-> creation index, sc |-> best score offered]
          max,   \* maximum size of each queue
          bf     \* breadth-first flag
vars == <<stk, dict, max, bf>>
StackInit == stk = {} /\ dict = <<>> /\ max = 64 /\ bf = FALSE
Best(S) == {x \in S : \A y \in S : y.sc <= x.sc}
Worst(S) == {x \in S : \A y \in S : y.sc >= x.sc}
Classes == {x.cls : x \in stk}
InClass(k) == {x \in stk : x.cls = k}
(* What pop/top may return, and last/removeLast                                 *)
Tops == IF stk = {} THEN {} ELSE IF bf THEN Best(InClass(CHOOSE k \in Classes : \A j \in Classes : k <= j)) ELSE Best(stk)
Lasts == IF stk = {} THEN {} ELSE IF bf THEN Worst(InClass(CHOOSE k \in Classes : \A j \in Classes : k >= j)) ELSE Worst(stk)
(* the n best of S, ties resolved either way                                    *)
BestN(S, n) == {T \in SUBSET S : Cardinality(T) = (IF n < Cardinality(S) THEN n ELSE Cardinality(S)) /\ \A x \in T, y \in S \ T : x.sc >= y.sc}
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Rejected(h) == h.st \in DOMAIN dict /\ dict[h.st].sc > h.sc   \* an equal or better way to reach the state is known
Push(h, ret) ==
  /\ UNCHANGED <<max, bf>>
  /\ IF Rejected(h) THEN ret = FALSE /\ UNCHANGED <<stk, dict>>
     ELSE /\ dict' = Extend(dict, h.st, [idx |-> IF h.st \in DOMAIN dict THEN dict[h.st].idx ELSE Cardinality(DOMAIN dict), sc |-> h.sc])
          /\ LET same == {x \in stk : x.st = h.st}                           \* replaced, whatever its class, if h gets in
                 other == {x \in stk : x.cls # h.cls}
                 rivals == {x \in stk : x.cls = h.cls /\ x.st # h.st}
             IN \E keep \in BestN(rivals, max) :
                  IF Cardinality(keep) < max THEN ret = TRUE /\ stk' = (other \ same) \cup keep \cup {h}
                  ELSE IF keep = {} \/ \A x \in keep : x.sc >= h.sc THEN ret = FALSE /\ stk' = other \cup keep
                  ELSE \E w \in Worst(keep) : ret = TRUE /\ stk' = ((other \ same) \cup keep \cup {h}) \ {w}
Pop(h) == h \in Tops /\ stk' = stk \ {h} /\ UNCHANGED <<dict, max, bf>>
RemoveLast(h) == h \in Lasts /\ stk' = stk \ {h} /\ UNCHANGED <<dict, max, bf>>
SetMax(n) == max' = n /\ UNCHANGED <<stk, dict, bf>>
SetBf(b) == bf' = b /\ UNCHANGED <<stk, dict, max>>
Clear == stk' = {} /\ UNCHANGED <<dict, max, bf>>
ClearAll == stk' = {} /\ dict' = <<>> /\ UNCHANGED <<max, bf>>

OnePerState == \A x, y \in stk : x.st = y.st => x = y
ScoreKnown == DOMAIN dict # {} => \A x \in stk : x.st \in DOMAIN dict => dict[x.st].sc >= x.sc
IndexesDistinct == {dict[s].idx : s \in DOMAIN dict} = 0..(Cardinality(DOMAIN dict) - 1)
==============================================================================
