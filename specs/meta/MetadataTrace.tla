---------------------------- MODULE MetadataTrace ----------------------------
EXTENDS Metadata, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, st
vars == <<h, l, st>>
None == [words |-> <<>>, cs |-> {}]
Init == h \in DOMAIN Traces /\ l = 1 /\ st = None
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Set(x) == {x[k] : k \in DOMAIN x}
Read == /\ E.op \in {"xml", "json", "clear"}
        /\ st' = TLCEval(IF E.op = "xml" THEN ParseXml(E.p) ELSE IF E.op = "json" THEN ParseJson(E.doc) ELSE None)
        /\ Val(E.words = st'.words)
CSet == E.op = "cset" /\ UNCHANGED st /\ Val(Set(E.out) = Spans(st.cs) /\ Len(E.out) = Cardinality(st.cs))
Trans == E.op = "trans" /\ UNCHANGED st /\ Val(E.out = TransFor(st.cs, E.a, E.b))
Aff == E.op = "aff" /\ UNCHANGED st /\ Val(E.a <= E.b => E.out = Affected(st.cs, E.a, E.b))
Sat == /\ E.op = "sat" /\ UNCHANGED st
       /\ Val((Respects(st.cs, E.d) => E.out) /\ (Broken(st.cs, E.d) => ~E.out)
               /\ (Complete(E.d, Len(st.words)) => E.out = Respects(st.cs, E.d)))
Pure == E.op = "pure" /\ UNCHANGED st /\ Val(E.words = st.words)
Step == l <= Len(Traces[h]) /\ (Read \/ CSet \/ Trans \/ Aff \/ Sat \/ Pure) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
