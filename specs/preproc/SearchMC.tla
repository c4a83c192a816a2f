------------------------------ MODULE SearchMC ------------------------------
(* Best-first search with recombination of hypotheses of the same state: the first complete hypothesis taken is the best. *)
EXTENDS Preproc, TLC
CONSTANT MaxToks
A == <<97>>
B == <<98>>
AA == <<65>>
BB == <<66>>
\* training corpora of the recaser, and of the detokenizer (words given by tokens)
RecC == <<  <<<<A, B>>, <<AA, B>>, <<AA, BB>>>>, <<<<AA>>, <<A, A>>, <<B, AA>>>>, <<<<A, BB, A>>, <<BB, B>>>> >>
DetC == <<  <<<<<<A, B>>, <<A>>>>, <<<<A>>, <<B, A>>>>>>, <<<<<<A, B, A>>>>, <<<<A>>, <<A>>, <<B>>>>, <<<<A, A>>>>>> >>
RecM(c) == [tm |-> TmOf(Flat(MapS(LAMBDA s : MapS(LAMBDA x : <<<<Lower(x)>>, x>>, s), c))), lm |-> LmOf(c, 2), n |-> 2]
DetM(c) == [tm |-> TmOf(Flat(MapS(LAMBDA s : DetokPairs(s), c))), lm |-> LmOf(MapS(LAMBDA s : DetokWords(s), c), 2), n |-> 2]
Full(m) == [tm |-> m.tm, lm |-> m.lm, n |-> m.n, tot |-> LmTotal(m.lm)]
Models == {Full(RecM(RecC[k])) : k \in DOMAIN RecC} \cup {Full(DetM(DetC[k])) : k \in DOMAIN DetC}
Weights == {<<1, 0, 0, 1>>, <<1, 1, 1, 1>>, <<0, 0, 0, 1>>, <<2, 1, 0, 1>>}
Toks == UNION {[1..k -> {A, B, <<99>>}] : k \in 1..MaxToks}
VARIABLES m, w, toks, open, top, ans
vars == <<m, w, toks, open, top, ans>>
None == [i |-> -1, ws |-> <<>>, sc |-> 0]
Init == /\ m \in Models /\ w \in Weights /\ toks \in Toks
        /\ open = {[i |-> 0, ws |-> <<>>, sc |-> 0]}
        /\ top = [x \in {<<0, <<BOS>>>>} |-> 0]
        /\ ans = None
St(h) == <<h.i, Hist(m, h.ws)>>
Span(i) == 1..(IF Len(toks) - i < MaxSpan THEN Len(toks) - i ELSE MaxSpan)
Exps(h) == UNION {LET s == SubSeq(toks, h.i + 1, h.i + l)
                  IN {LET ws == Append(h.ws, t)
                      IN [i |-> h.i + l, ws |-> ws,
                          sc |-> h.sc + Ext(m, 2, w, s, h.ws, t) + (IF h.i + l = Len(toks) THEN End(m, 2, w, ws) ELSE 0)] : t \in Opts(m, s)} : l \in Span(h.i)}
Pop == /\ ans = None /\ open # {}
       /\ \E h \in open :
            /\ \A g \in open : g.sc <= h.sc
            /\ IF h.sc < top[St(h)] THEN open' = open \ {h} /\ UNCHANGED <<top, ans>>
               ELSE IF h.i = Len(toks) THEN ans' = h /\ UNCHANGED <<open, top>>
               ELSE LET x == Exps(h)
                        sts == DOMAIN top \cup {St(g) : g \in x}
                    IN /\ open' = (open \ {h}) \cup x
                       /\ top' = [s \in sts |-> FoldSet(LAMBDA g, a : IF St(g) = s THEN MaxOf2(a, g.sc) ELSE a, IF s \in DOMAIN top THEN top[s] ELSE NoScore, x)]
                       /\ UNCHANGED ans
       /\ UNCHANGED <<m, w, toks>>
Spec == Init /\ [][Pop]_vars
Optimal == ans # None => ans.sc = Best(m, 2, w, toks, 1, <<>>)
Found == open # {} \/ ans # None
Falling == \A h \in open : h.sc <= 0
=============================================================================
