-------------------------------- MODULE Sent --------------------------------
(* Sentence pairs of the alignment models and their use in training. A pair is *)
(* [s, t, c]: words of both sides, and a count in quarters. Files hold lines.  *)
(* Training over a range uses each pair once: what the pair contributed before  *)
(* is taken back if its expected values are still retained.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NoCounts == <<-1>>
\* What reading files gives; the third file is optional. Lines beyond those of the source file are not used.
Readable(d, useC) == Len(d.t) >= Len(d.s) /\ (useC /\ d.c # NoCounts => Len(d.c) >= Len(d.s))
PairsOf(d, useC) == [i \in DOMAIN d.s |-> [s |-> d.s[i], t |-> d.t[i], c |-> IF useC /\ d.c # NoCounts THEN d.c[i] ELSE 4]]
\* What printing gives.
FilesOf(ps) == [s |-> [i \in DOMAIN ps |-> ps[i].s], t |-> [i \in DOMAIN ps |-> ps[i].t], c |-> [i \in DOMAIN ps |-> ps[i].c]]

(* ---- training ---- *)
(* cap: number of pairs whose expected values are retained (-1: all), kept in   *)
(* order of arrival; mass: expected counts of each target word; am: of each     *)
(* source length; sl: number, weight, sums of length and squared length of the  *)
(* target sentences for each source length.                                    *)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, z) == IF k \in DOMAIN f THEN f[k] ELSE z
Fresh(cap) == [cap |-> cap, kept |-> <<>>, mass |-> <<>>, am |-> <<>>, sl |-> <<>>]
Fits(p, max) == p.s # <<>> /\ p.t # <<>> /\ Len(p.s) <= max /\ Len(p.t) <= max
Retain(m, n) == IF m.cap = 0 \/ n \in Range(m.kept) THEN m
                ELSE [m EXCEPT !.kept = IF m.cap < 0 \/ Len(@) < m.cap THEN Append(@, n) ELSE Append(Tail(@), n)]
AddWords(f, p) == FoldLeft(LAMBDA a, w : Put(a, w, At(a, w, 0) + p.c), f, p.t)
Count1(m, p) == [m EXCEPT !.mass = AddWords(@, p), !.am = Put(@, Len(p.s), At(@, Len(p.s), 0) + p.c * Len(p.t))]
Lengths(m, p) == LET o == At(m.sl, Len(p.s), <<0, 0, 0, 0>>) l == Len(p.t)
                 IN [m EXCEPT !.sl = Put(@, Len(p.s), <<o[1] + 1, o[2] + p.c, o[3] + p.c * l, o[4] + p.c * l * l>>)]
\* n counts from 0
TrainOne(m, n, p, max) == LET x == IF Fits(p, max) THEN Retain(IF n \in Range(m.kept) THEN m ELSE Count1(m, p), n) ELSE m
                          IN Lengths(x, p)
Train(m, ps, a, b, max) == FoldLeft(LAMBDA x, n : TrainOne(x, n, ps[n + 1], max), m, [i \in 1..(b - a + 1) |-> a + i - 1])
\* batch training forgets expected values and counts, not the lengths
Batch(m, ps, a, b, max) == Train([m EXCEPT !.cap = 0, !.kept = <<>>, !.mass = <<>>, !.am = <<>>], ps, a, b, max)
SetCap(m, cap) == [m EXCEPT !.cap = cap, !.kept = <<>>]
Forget(m) == [m EXCEPT !.kept = <<>>]

(* ---- order of training of the program that estimates models ---- *)
(* n pairs; o.n iterations; o.mode: "batch", "eb", "incr", "inter" (with o.r),  *)
(* "mini" (with o.mb); o.r: pairs retained (-1: all); o.c: first a whole pass.  *)
Rep(k, q) == FlattenSeq([i \in 1..k |-> q])
Single(n) == [i \in 1..n |-> <<i - 1, i - 1>>]
Inter(n, it, r) == LET d == r \div it
                   IN FlattenSeq([jj \in 1..(n + r) |->
                        SelectSeq([i \in 1..it |-> <<(jj - 1) - (i - 1) * d, (jj - 1) - (i - 1) * d>>], LAMBDA x : x[1] >= 0 /\ x[1] < n)])
Minis(n, mb) == [k \in 1..((n + mb - 1) \div mb) |-> <<(k - 1) * mb, IF k * mb - 1 >= n THEN n - 1 ELSE k * mb - 1>>]
Ranges(n, o) == IF n = 0 THEN <<>> ELSE
  (IF o.c /\ o.mode # "eb" THEN <<<<0, n - 1>>>> ELSE <<>>) \o
  CASE o.mode = "inter" -> Inter(n, o.n, o.r)
    [] o.mode = "mini" -> Rep(o.n, Minis(n, o.mb))
    [] o.mode = "incr" -> Rep(o.n, Single(n))
    [] OTHER -> Rep(o.n, <<<<0, n - 1>>>>)
\* Combinations of options that are refused; o.l: a model is loaded
OptionsOk(o) == /\ o.mode \in {"eb", "mini"} => o.r < 0 /\ ~o.c
                /\ o.r >= 0 => o.mode \in {"incr", "inter"}
                /\ o.l => ~o.c
Continue(m, ps, o, max) == FoldLeft(LAMBDA x, r : IF o.mode = "eb" THEN Batch(x, ps, r[1], r[2], max) ELSE Train(x, ps, r[1], r[2], max),
                                    IF o.r >= 0 THEN SetCap(m, o.r) ELSE m, Ranges(Len(ps), o))
Program(ps, o, max) == Continue(Fresh(-1), ps, o, max)
=============================================================================
