----------------------------- MODULE TablesTrace -----------------------------
EXTENDS Tables, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l, tab, mat, file, db, cur, mfile
vars == <<h, l, tab, mat, file, db, cur, mfile>>
Tabs == {"lex", "hmm", "ibm2"}
Mats == {"anji", "anjip"}
Init == /\ h \in DOMAIN Traces /\ l = 1 /\ tab = [o \in Tabs |-> EmptyTab] /\ mat = [o \in Mats |-> EmptyMat(-1)]
        /\ file = <<>> /\ db = <<>> /\ cur = "" /\ mfile = <<>>
E == Traces[h][l]
Val(x) == IF x THEN TRUE ELSE FALSE
Keep == UNCHANGED mat /\ UNCHANGED mfile
\* The table an event is about, and its new value.
T == IF E.o = "ldb" THEN db[cur] ELSE tab[E.o]
Now(x) == IF E.o = "ldb" THEN db' = Put(db, cur, x) /\ UNCHANGED <<tab, cur>> ELSE tab' = [tab EXCEPT ![E.o] = x] /\ UNCHANGED <<db, cur>>
FileId == <<IF E.o \in {"lex", "ldb"} THEN "lex" ELSE E.o, E.f>>
IsTab == E.o \in Tabs \cup {"ldb"}
Write == /\ IsTab /\ E.op \in {"num", "den", "both", "clear"}
         /\ Now(TLCEval(CASE E.op = "num" -> SetNum(T, E.k, E.x, E.v) [] E.op = "den" -> SetDen(T, E.k, E.v)
                          [] E.op = "both" -> SetBoth(T, E.k, E.x, E.v, E.d) [] OTHER -> EmptyTab))
         /\ UNCHANGED file /\ Keep
Read == /\ IsTab /\ E.op \in {"gnum", "gden", "trans"} /\ UNCHANGED <<tab, file, db, cur>> /\ Keep
        /\ Val(CASE E.op = "gnum" -> E.found = Num(T, E.k, E.x).found /\ E.v = Num(T, E.k, E.x).v
                 [] E.op = "gden" -> E.found = Den(T, E.k).found /\ E.v = Den(T, E.k).v
                 [] OTHER -> LET w == {k[1] : k \in TransOf(T, E.x)} IN
                             Len(E.out) = Cardinality(w) /\ {E.out[i] : i \in DOMAIN E.out} = w /\ (w # {} => E.ret))
Printed == /\ IsTab /\ E.op = "print" /\ E.ret = 0 /\ file' = Put(file, FileId, TLCEval(RowsOf(T))) /\ UNCHANGED <<tab, db, cur>> /\ Keep
Load == /\ E.o \in Tabs /\ E.op = "load" /\ UNCHANGED file /\ Keep
        /\ IF FileId \in DOMAIN file THEN E.ret = 0 /\ Now(TLCEval(TabOf(file[FileId]))) ELSE E.ret = 1 /\ Now(EmptyTab)
DbInit == /\ E.o = "ldb" /\ E.op = "init" /\ E.ret = 0 /\ cur' = E.f /\ db' = Put(db, E.f, EmptyTab) /\ UNCHANGED <<tab, file>> /\ Keep
DbDrop == /\ E.o = "ldb" /\ E.op = "drop" /\ E.ret = 0 /\ cur' = "" /\ db' = [x \in DOMAIN db \ {cur} |-> db[x]] /\ UNCHANGED <<tab, file>> /\ Keep
DbLoad == /\ E.o = "ldb" /\ E.op = "load" /\ cur' = E.f /\ UNCHANGED <<tab, file>> /\ Keep
          /\ IF E.f \in DOMAIN db THEN E.ret = 0 /\ db' = db
             ELSE IF FileId \in DOMAIN file THEN E.ret = 0 /\ db' = Put(db, E.f, TLCEval(TabOf(file[FileId])))
             ELSE E.ret = 1 /\ db' = Put(db, E.f, EmptyTab)
\* Programs. Those that read files take the records from the event; "convert" and "keep" use the files of the history.
Prog == /\ E.o = "prog" /\ UNCHANGED <<tab, cur>> /\ Keep /\ E.ret = 0
        /\ CASE E.op = "sort" -> UNCHANGED <<db, file>> /\ Val(IsSortOf(E.out, E.in))
             [] E.op = "merge" -> UNCHANGED <<db, file>> /\ Val(E.out = MergeOf(E.in))
             [] E.op = "prune" -> UNCHANGED <<db, file>> /\ Val(IsPruneOf(E.out, E.in, E.n, E.c))
             [] E.op = "filter" -> UNCHANGED <<db, file>> /\ Val(E.out = FilterOf(E.in, E.info))
             [] E.op = "info" -> UNCHANGED <<db, file>> /\ Val(E.out = [i \in DOMAIN E.in |-> <<E.in[i].k, E.in[i].x>>])
             [] E.op = "convert" -> UNCHANGED file /\ db' = Put(db, E.p, TLCEval(TabOf(file[<<"lex", E.f>>])))
(* ---- matrices ---- *)
M == mat[E.o]
MNow(x) == mat' = [mat EXCEPT ![E.o] = x]
Got(v, g) == g[1] = v /\ g[2] = (IF v = Invalid THEN 0 ELSE v) /\ g[3] = (IF v = Invalid THEN -2 ELSE v)
Mat == /\ E.o \in Mats /\ UNCHANGED <<tab, file, db, cur>>
       /\ CASE E.op = "max" -> MNow(EmptyMat(E.m)) /\ UNCHANGED mfile
            [] E.op = "clear" -> MNow(EmptyMat(M.max)) /\ UNCHANGED mfile
            [] E.op = "reset" -> MNow(IF M.max = 0 THEN M ELSE Forget(M)) /\ E.ret = (IF M.max = 0 THEN 1 ELSE 0) /\ UNCHANGED mfile
            [] E.op = "set" -> MNow(TLCEval(PutCell(M, E.n, E.c, E.v))) /\ UNCHANGED mfile
            [] E.op = "init" -> /\ LET a == TLCEval(Room(M, E.n, E.d)) b == TLCEval(PutAll(a, E.n, E.cs))
                                   IN MNow(b) /\ Val(M.max # 0 => \A i \in DOMAIN E.fast : Got(Cell(b, E.n, E.fast[i].c), E.fast[i].g))
                                /\ E.ret = (IF M.max = 0 THEN 1 ELSE 0) /\ UNCHANGED mfile
            [] E.op = "get" -> MNow(M) /\ Val(Got(Cell(M, E.n, E.c), E.g)) /\ UNCHANGED mfile
            [] E.op = "getmax" -> MNow(M) /\ E.m = M.max /\ UNCHANGED mfile
            [] E.op = "print" -> MNow(M) /\ E.ret = 0 /\ mfile' = Put(mfile, <<E.o, E.f>>, M)
            [] E.op = "load" -> /\ UNCHANGED mfile
                                /\ IF <<E.o, E.f>> \in DOMAIN mfile THEN E.ret = 0 /\ MNow(mfile[<<E.o, E.f>>])
                                   ELSE E.ret = 1 /\ MNow(EmptyMat(M.max))
Step == l <= Len(Traces[h]) /\ (Write \/ Read \/ Printed \/ Load \/ DbInit \/ DbDrop \/ DbLoad \/ Prog \/ Mat) /\ l' = l + 1 /\ h' = h
Done == l > Len(Traces[h]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
