---------------------------- MODULE PhraseTable ----------------------------
(* Abstract phrase table: three partial count functions, over source phrases, *)
(* target phrases and phrase pairs, with the queries the translation models    *)
(* build their probabilities and translation options from.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cs,    \* source phrase  -> count
          ct,    \* target phrase  -> count
          cst    \* <<source, target>> -> count
vars == <<cs, ct, cst>>

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]

PTInit == cs = Empty /\ ct = Empty /\ cst = Empty

Incr(s, t, c) == /\ cs' = Put(cs, s, Get(cs, s) + c)
                 /\ ct' = Put(ct, t, Get(ct, t) + c)
                 /\ cst' = Put(cst, <<s, t>>, Get(cst, <<s, t>>) + c)
\* Source count set; the entry's joint count set and aggregated into the target.
AddEntry(s, t, c, d) == /\ cs' = Put(cs, s, c)
                        /\ ct' = Put(ct, t, Get(ct, t) + d)
                        /\ cst' = Put(cst, <<s, t>>, d)
AddSrc(s, c) == cs' = Put(cs, s, c) /\ UNCHANGED <<ct, cst>>
AddPair(s, t, c) == /\ s \in DOMAIN cs /\ t \in DOMAIN ct
                    /\ cst' = Put(cst, <<s, t>>, c) /\ UNCHANGED <<cs, ct>>
Clear == cs' = Empty /\ ct' = Empty /\ cst' = Empty
Reload == UNCHANGED vars            \* close and reopen a persistent table

(* ------------------------------- queries -------------------------------- *)
Size == Cardinality(DOMAIN cs) + Cardinality(DOMAIN ct) + Cardinality(DOMAIN cst)
PairsOfTrg(t) == {p \in DOMAIN cst : p[2] = t /\ cst[p] # 0 /\ cs[p[1]] # 0}
PairsOfSrc(s) == {p \in DOMAIN cst : p[1] = s /\ cst[p] # 0 /\ ct[p[2]] # 0}
EntriesForTrg(t) == {<<p[1], cs[p[1]], cst[p]>> : p \in PairsOfTrg(t)}
EntriesForSrc(s) == {<<p[2], ct[p[2]], cst[p]>> : p \in PairsOfSrc(s)}
\* numerator of a conditional relative frequency, or -1 for the smoothing value
Freq(s, t, den) == IF Get(cst, <<s, t>>) > 0 /\ den > 0 THEN cst[<<s, t>>] ELSE -1
\* res is an n-best list <<phrase, joint count>>: entries best first, n < 0 means all
NBest(res, pairs, other(_), n) ==
  LET full == Cardinality(pairs)
      want == IF n >= 0 /\ n < full THEN n ELSE full
      chosen == {res[i][1] : i \in 1..Len(res)}
      in(p) == other(p) \in chosen
  IN /\ Len(res) = want /\ Cardinality(chosen) = want
     /\ \A i \in 1..Len(res) : \E p \in pairs : other(p) = res[i][1] /\ cst[p] = res[i][2]
     /\ \A i \in 1..(Len(res) - 1) : res[i][2] >= res[i + 1][2]
     /\ \A p \in pairs, q \in pairs : in(p) /\ ~in(q) => cst[p] >= cst[q]

(* ------------------- invariants (histories of Incr only) ------------------ *)
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN cst[p] + SumOver(S \ {p})
Marginals == /\ \A s \in DOMAIN cs : cs[s] = SumOver({p \in DOMAIN cst : p[1] = s})
             /\ \A t \in DOMAIN ct : ct[t] = SumOver({p \in DOMAIN cst : p[2] = t})
             /\ \A p \in DOMAIN cst : p[1] \in DOMAIN cs /\ p[2] \in DOMAIN ct
Closed == \A p \in DOMAIN cst : p[1] \in DOMAIN cs /\ p[2] \in DOMAIN ct
=============================================================================
