----------------------------- MODULE VocabTrace -----------------------------
EXTENDS Vocab, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, st
vars == <<h, l, st>>
Names == {"s", "t", "ps", "pt", "ss", "st", "lm", "ienc", "enc"}
Kind(v) == IF v \in {"lm", "ienc"} THEN "lm" ELSE IF v = "enc" THEN "enc" ELSE "voc"
Fresh == [voc |-> [v \in Names |-> Reserved(Kind(v))], files |-> <<>>]
Init == h \in DOMAIN Traces /\ l = 1 /\ st = Fresh
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
K == Kind(E.v)
M == st.voc[E.v]
Set(m) == st' = [st EXCEPT !.voc[E.v] = TLCEval(m)]
Add == /\ E.op = "add" /\ Val(Len(E.out) = Len(E.ws) /\ AddOk(K, M, E.ws, E.out, 1))
       /\ Set(AddAll(M, E.ws, E.out, 1))
\* code and decode vectors, word by word
Codes == /\ E.op = "codes" /\ UNCHANGED st
         /\ Val(Len(E.out) = Len(E.ws))
         /\ \A n \in DOMAIN E.ws : Val(IF Known(M, E.ws[n]) THEN E.out[n] = Code(M, E.ws[n])
                                       ELSE IF K = "voc" THEN E.out[n] = 1 ELSE IF K = "lm" THEN E.out[n] = 0 ELSE E.out[n] \notin Used(M))
         /\ Val(E.found = \A n \in DOMAIN E.ws : Known(M, E.ws[n]))
Decode == /\ E.op = "names" /\ UNCHANGED st
          /\ IF K = "voc" \/ E.v = "lm"
             THEN Val(E.out = [n \in DOMAIN E.is |-> IF HasName(M, E.is[n]) THEN Name(M, E.is[n]) ELSE IF K = "voc" THEN "UNKNOWN_WORD" ELSE "<unk>"])
             ELSE Val(E.found = (\A n \in DOMAIN E.is : HasName(M, E.is[n])) /\ (E.found => E.out = [n \in DOMAIN E.is |-> Name(M, E.is[n])]))
Size == E.op = "size" /\ UNCHANGED st /\ Val(E.out = Cardinality(M))
All == E.op = "all" /\ UNCHANGED st /\ Val({E.out[n] : n \in DOMAIN E.out} = M /\ Len(E.out) = Cardinality(M))
Bounds == E.op = "bounds" /\ UNCHANGED st
          /\ Val(E.bos = [found |-> Known(M, "<s>"), i |-> IF Known(M, "<s>") THEN Code(M, "<s>") ELSE 0])
          /\ Val(E.eos = [found |-> Known(M, "</s>"), i |-> IF Known(M, "</s>") THEN Code(M, "</s>") ELSE 0])
Write == E.op = "write" /\ st' = [st EXCEPT !.files = [f \in DOMAIN st.files \cup {E.f} |-> IF f = E.f THEN E.lines ELSE st.files[f]]]
Save == /\ E.op = "print" /\ Val(E.ok /\ FileOf(K, M, E.lines))
        /\ st' = [st EXCEPT !.files = [f \in DOMAIN st.files \cup {E.f} |-> IF f = E.f THEN E.lines ELSE st.files[f]]]
Read == /\ E.op = "load"
        /\ IF E.f \in DOMAIN st.files
           THEN LET r == TLCEval(Load(K, st.files[E.f])) IN Val(E.ok = r.ok /\ WellFormed(K, st.files[E.f])) /\ Set(r.m)
           ELSE Val(~E.ok) /\ UNCHANGED st
\* the two vocabularies of an object are cleared together
Clear == /\ E.op = "clear"
         /\ LET g == CASE E.v \in {"s", "t"} -> {"s", "t"} [] E.v \in {"ps", "pt"} -> {"ps", "pt"} [] E.v \in {"ss", "st"} -> {"ss", "st"} [] OTHER -> {E.v}
            IN st' = [st EXCEPT !.voc = [v \in Names |-> IF v \in g THEN Reserved(Kind(v)) ELSE st.voc[v]]]
Step == l <= Len(Traces[h]) /\ (Add \/ Codes \/ Decode \/ Size \/ All \/ Bounds \/ Write \/ Save \/ Read \/ Clear) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
