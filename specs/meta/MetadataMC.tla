----------------------------- MODULE MetadataMC ------------------------------
(* Every annotated sentence reads back as itself; an annotated sentence with  *)
(* one token dropped, doubled or replaced keeps the laws. One generated test   *)
(* for each, with all queries.                                                 *)
EXTENDS Metadata, TLC, Json, FiniteSetsExt
CONSTANTS W, MaxLen, MaxCs, Gen
VARIABLES s, cs, tk, hist
vars == <<s, cs, tk, hist>>
Disjoint(c) == \A x, y \in c : x # y => (x.b < y.a \/ y.b < x.a)
Cands(n) == {[a |-> a, b |-> b, t |-> t] : a \in 1..n, b \in 1..n, t \in {<<"x">>, <<"x", "y">>}}
Sets(n) == LET C == {x \in Cands(n) : x.a <= x.b} IN {{}} \cup {c \in {{x, y} : x \in C, y \in C} : Disjoint(c) /\ Cardinality(c) <= MaxCs}
Init == /\ s \in UNION {[1..n -> W] : n \in 0..MaxLen}
        /\ cs \in Sets(Len(s))
        /\ tk = AnnotFrom(s, cs, 1) /\ hist = <<>>
Qs(n) == <<[op |-> "cset"]>> \o SetToSeq({[op |-> o, a |-> a, b |-> b] : o \in {"trans", "aff"}, a \in 1..(n + 1), b \in 1..(n + 1)})
Drop(k) == SubSeq(tk, 1, k - 1) \o SubSeq(tk, k + 1, Len(tk))
Double(k) == SubSeq(tk, 1, k) \o SubSeq(tk, k, Len(tk))
Next == /\ hist = <<>> /\ UNCHANGED <<s, cs>>
        /\ \/ tk' = tk
           \/ \E k \in DOMAIN tk : tk' = Drop(k)
           \/ \E k \in DOMAIN tk : tk' = Double(k)
           \/ \E k \in DOMAIN tk, x \in Tags \ {PE} : tk' = [tk EXCEPT ![k] = x]
        /\ hist' = IF Gen THEN <<[op |-> "xml", p |-> Spaced(tk')]>> \o Qs(Len(ParseXml(Spaced(tk')).words)) ELSE <<tk'>>
Spec == Init /\ [][Next]_vars
Emit == Gen => PrintT("BEH " \o ToJson(hist'))
Inv == LET r == ParseXml(Spaced(tk)) IN
    /\ hist = <<>> => r = [words |-> s, cs |-> cs]
    /\ Disjoint(r.cs)
    /\ \A c \in r.cs : c.a >= 1 /\ c.a <= c.b /\ c.b <= Len(r.words) /\ c.t # <<>>
    \* reading is idempotent: written again, it reads the same
    /\ (\A i \in DOMAIN r.words : r.words[i] \notin Tags) /\ (\A c \in r.cs : \A i \in DOMAIN c.t : c.t[i] \notin Tags)
          => ParseXml(Spaced(AnnotFrom(r.words, r.cs, 1))) = r
    \* with JSON, texts in order of their positions are located where they are, or before
    /\ hist = <<>> => LET str(v) == [k |-> "str", v |-> Spaced(v)]
                          seq == SetToSortSeq(cs, LAMBDA x, y : x.a < y.a)
                          doc == [k |-> "obj", src |-> str(s), tags |-> [k \in DOMAIN seq |-> [k |-> "obj", o |-> str(SubSeq(s, seq[k].a, seq[k].b)), t |-> str(seq[k].t)]]]
                          j == ParseJson(doc)
                      IN /\ j.words = s /\ Cardinality(j.cs) = Cardinality(cs) /\ Disjoint(j.cs)
                         /\ \A c \in j.cs : \E d \in cs : d.t = c.t /\ c.a <= d.a /\ SubSeq(s, c.a, c.b) = SubSeq(s, d.a, d.b)
                         /\ (Cardinality({s[i] : i \in DOMAIN s}) = Len(s) => j.cs = cs)
=============================================================================
