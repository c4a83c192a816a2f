----------------------------- MODULE NgramTrace -----------------------------
EXTENDS Ngram, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* lm: models; ls, wf: n-gram and weight files; db: data bases as stored; tol: tolerance of the probabilities of each model
VARIABLES h, l, lm, ls, wf, db, tol
vars == <<h, l, lm, ls, wf, db, tol>>
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == a - b <= t /\ b - a <= t
Init == h \in DOMAIN Traces /\ l = 1 /\ lm = <<>> /\ ls = <<>> /\ wf = <<>> /\ db = <<>> /\ tol = <<>>
M == lm[E.o]
Now(m) == lm' = Put(lm, E.o, m)
Same == UNCHANGED <<ls, wf, db, tol>>
Look == UNCHANGED lm /\ Same
CntOk(got, c) == got >= 0 /\ Near(got, c, 3 + c \div 400000)
POk(got, p, t) == got >= 0 /\ Near(got, p, t)
New == E.op = "new" /\ Now(NewLm(E.kind)) /\ tol' = Put(tol, E.o, 25) /\ UNCHANGED <<ls, wf, db>>
\* A data base whose counts changed since its vocabulary was written has to be printed before it is used again.
Touch(m) == IF m.kind = "ldb" /\ m.at # "" THEN db' = [db EXCEPT ![m.at].ok = FALSE] ELSE db' = db
TrainOp == E.op = "train" /\ E.ret = 0 /\ Now(TLCEval(Train(M, E.ss, E.c, E.lb))) /\ Touch(M) /\ UNCHANGED <<ls, wf, tol>>
Order == E.op = "order" /\ Now([M EXCEPT !.order = E.n]) /\ Same
InVoc(g) == Range(g) \subseteq M.voc
Cnt == /\ E.op = "cnt" /\ Look
       /\ Val(/\ CntOk(E.ch, IF InVoc(E.g) THEN SrcOf(M, E.g) ELSE 0)
              /\ E.g # <<>> => LET c == IF InVoc(E.g) THEN Get(M.st, E.g) ELSE 0 IN
                               CntOk(E.cn, c) /\ CntOk(E.cn2, c) /\ CntOk(E.ch2, IF InVoc(E.g) THEN SrcOf(M, E.g) ELSE 0))
ProbOp == /\ E.op = "prob" /\ Look
          /\ LET k == [i \in DOMAIN E.h |-> Known(M, E.h[i])] IN
             Val(/\ POk(E.p, IF InVoc(E.h) /\ E.w \in M.voc THEN ProbOf(M, E.h, E.w) ELSE 0, tol[E.o])
                 /\ POk(E.pi, ProbOf(M, k, Known(M, E.w)), tol[E.o])
                 /\ POk(E.pe, ProbOf(M, k, Eos), tol[E.o])
                 /\ POk(E.pes, IF InVoc(E.h) THEN ProbOf(M, E.h, Eos) ELSE 0, tol[E.o]))
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SentOk(m, s, r, t) == LET p == SentProbs(m, s) IN
  /\ Len(r.ps) = Len(p) /\ \A i \in DOMAIN p : POk(r.ps[i], p[i], t)
  /\ IF \E i \in DOMAIN r.ls : r.ls[i] <= -100000000 THEN r.tot <= -100000000 ELSE Near(r.tot, Sum(r.ls), 2 * Len(p))
SentOp == E.op = "sent" /\ Look /\ Val(SentOk(M, E.s, E.r, tol[E.o]))
\* Empty lines of a corpus are not sentences.
Perp(m, ss, t) ==
  LET k == SelectSeq(ss, LAMBDA s : s # <<>>)
      n == Sum([i \in DOMAIN k |-> Len(k[i])])
  IN /\ E.ret = 0 /\ E.ns = Len(k) /\ E.nw = n /\ Len(E.r) = Len(k) /\ \A i \in DOMAIN k : SentOk(m, k[i], E.r[i], t)
     /\ IF \E i \in DOMAIN k : E.r[i].tot <= -100000000 THEN E.tot <= -100000000
        ELSE /\ Near(E.tot, Sum([i \in DOMAIN k |-> E.r[i].tot]), 2 + Len(k) + Abs(E.tot) \div 50000)
             /\ k # <<>> => Near(E.lp * (n + Len(k)), -E.tot, 2 * (n + Len(k)) + Abs(E.tot) \div 50000)
PerpOp == E.op = "perp" /\ Look /\ Val(Perp(M, E.ss, tol[E.o]))
Voc == /\ E.op = "voc" /\ Look /\ E.n = Cardinality(M.voc) /\ E.order = M.order
       /\ POk(E.zero, Prob0(M), 2) /\ E.marks = "<s> </s>" /\ Val(E.back = [i \in DOMAIN E.ws |-> Known(M, E.ws[i])])
Clear == E.op = "clear" /\ Now([(IF E.voc = 1 THEN ClearVoc(ClearLm(M)) ELSE ClearLm(M)) EXCEPT !.at = ""]) /\ UNCHANGED <<ls, wf, tol>>
         /\ db' = IF M.kind = "ldb" /\ M.at # "" THEN [db EXCEPT ![M.at].ok = FALSE] ELSE db
Weights == E.op = "weights" /\ wf' = Put(wf, E.f, E.wt) /\ UNCHANGED <<lm, ls, db, tol>>
MkFile == E.op = "mkfile" /\ ls' = Put(ls, E.f, E.lines) /\ UNCHANGED <<lm, wf, db, tol>>
WtOf(m) == [m.wt EXCEPT !.order = m.order]
LinesOk(got, want, t) == /\ Len(got) = Cardinality(want)
                         /\ {got[i][1] : i \in DOMAIN got} = {x[1] : x \in want}
                         /\ \A i \in DOMAIN got, x \in want : got[i][1] = x[1] => Near(got[i][2], x[2], t + x[2] \div 2000000) /\ Near(got[i][3], x[3], t + x[3] \div 2000000)
PrintOp == /\ E.op = "print" /\ UNCHANGED <<lm, tol>>
           /\ IF M.kind = "ldb" THEN /\ E.ret = IF M.at = E.f THEN 0 ELSE 1
                                     /\ UNCHANGED ls
                                     /\ wf' = IF M.at = E.f THEN Put(wf, E.f, WtOf(M)) ELSE wf
                                     /\ db' = IF M.at = E.f THEN Put(db, E.f, [st |-> M.st, src |-> M.src, voc |-> M.voc, ok |-> TRUE]) ELSE db
              ELSE /\ E.ret = 0 /\ Val(LinesOk(E.lines, LinesOf(M), 3)) /\ ls' = Put(ls, E.f, TLCEval(SetToSeq(LinesOf(M)))) /\ UNCHANGED db
                   /\ wf' = IF M.kind = "sm" THEN wf ELSE Put(wf, E.f, WtOf(M))
LoadOp ==
  /\ E.op = "load" /\ UNCHANGED <<ls, wf, db>>
  /\ IF M.kind = "ldb"
     THEN IF E.f \notin DOMAIN db THEN E.ret = 1 /\ UNCHANGED <<lm, tol>>
          ELSE /\ db[E.f].ok
               /\ LET x == [M EXCEPT !.st = db[E.f].st, !.src = db[E.f].src, !.voc = db[E.f].voc, !.at = E.f] IN
                  IF E.f \in DOMAIN wf THEN E.ret = 0 /\ Now([x EXCEPT !.wt = wf[E.f], !.order = wf[E.f].order]) /\ tol' = Put(tol, E.o, 25)
                  ELSE E.ret = 1 /\ Now(x) /\ UNCHANGED tol
     ELSE IF M.kind = "jm" /\ E.f \notin DOMAIN wf THEN E.ret = 1 /\ UNCHANGED <<lm, tol>>
     ELSE IF E.f \notin DOMAIN ls THEN /\ E.ret = 1 /\ Now(IF M.kind = "jm" THEN [M EXCEPT !.wt = wf[E.f], !.order = wf[E.f].order] ELSE M) /\ tol' = Put(tol, E.o, 25)
     ELSE E.ret = 0 /\ Now(TLCEval(LoadLm(M, ls[E.f], IF M.kind = "jm" THEN wf[E.f] ELSE M.wt))) /\ tol' = Put(tol, E.o, 25)
\* Weights are fitted to a corpus, or left as they are.
Upd == /\ E.op = "upd" /\ Len(E.w) = Len(M.wt.w) /\ (E.ret = 0 \/ E.w = M.wt.w \/ tol[E.o] > 25)
       /\ Val(\A i \in DOMAIN E.w : E.ret = 0 => E.w[i] \in 0..1000) /\ (E.l0 < 100000000 => E.l1 <= E.l0 + 3)
       /\ Now([M EXCEPT !.wt.w = E.w]) /\ tol' = Put(tol, E.o, IF E.ret = 0 THEN 4000 ELSE tol[E.o]) /\ UNCHANGED <<ls, wf, db>>
Counts == /\ E.op = "counts" /\ E.ret = 0 /\ Val(LinesOk(E.lines, CountLines(IF E.unk = 1 THEN UnkFirst(E.ss) ELSE E.ss, E.n), 0))
          /\ ls' = Put(ls, E.f, E.lines) /\ UNCHANGED <<lm, wf, db, tol>>
ToLdb == /\ E.op = "toldb" /\ E.ret = 0 /\ Consistent(Range(ls[E.f])) /\ UNCHANGED <<lm, ls, wf, tol>>
         /\ LET x == TLCEval(LoadLm(NewLm("ldb"), ls[E.f], NewW)) IN db' = Put(db, E.g, [st |-> x.st, src |-> x.src, voc |-> x.voc, ok |-> TRUE])
PerpProg == E.op = "perpprog" /\ Look /\ LET x == TLCEval([LoadLm(NewLm("jm"), ls[E.f], wf[E.f]) EXCEPT !.order = E.n]) IN Val(Perp(x, E.ss, 25))
Step == l <= Len(Traces[h]) /\ l' = l + 1 /\ h' = h
        /\ (New \/ TrainOp \/ Order \/ Cnt \/ ProbOp \/ SentOp \/ PerpOp \/ Voc \/ Clear \/ Weights \/ MkFile \/ PrintOp \/ LoadOp \/ Upd \/ Counts \/ ToLdb \/ PerpProg)
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
