---------------------------- MODULE InitThreadMC ----------------------------
EXTENDS InitThread, Json
CONSTANTS Depth, EmitScripts, Some, Sets, Names
VARIABLES S, hist
vars == <<S, hist>>
Sets1 == {<<>>, <<"AAA", "NOTICE">>, <<"LONGLABEL12", "WARNING">>}
Sets2 == {<<"AAA", "NOTICE">>}
Names1 == {"", "T", "exactly fifteen", "a name of seventeen"}
Names2 == {"", "fourteen chars", "a name of 16 chr"}
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op) /\ hist' = Append(hist, op)
Modes == {"default", "rc", "copy", "off"}
Others == Threads \ {1}
Start(t, m, n) == [op |-> "start", t |-> t, mode |-> m, name |-> n, id |-> "ID"]
IsInit == \E s \in Sets : Do([op |-> "init", t |-> 1, on |-> s])
IsStart == \E t \in Others, m \in Modes, n \in Names : Do(Start(t, m, n))
IsCon == \E t \in Threads, c \in Some : Do([op |-> "con", t |-> t, c |-> c])
IsCoff == \E t \in Threads, c \in Some : S.th[t].ch[c] < 1 /\ Do([op |-> "coff", t |-> t, c |-> c])
IsDon == \E t \in Threads : Do([op |-> "don", t |-> t])
IsDoff == \E t \in Threads : S.th[t].obj < 1 /\ Do([op |-> "doff", t |-> t])
IsEnd == \E t \in Others : Do([op |-> "end", t |-> t])
IsMutex == Do([op |-> "mutex", t |-> 1])
IsLate == Do([op |-> "late", t |-> 1])
IsPrint == \E t \in Threads, c \in Some : S.inited /\ (hist # <<>> => hist[Len(hist)].op # "print") /\ Do([op |-> "print", t |-> t, c |-> c])
Next == IsInit \/ IsStart \/ IsCon \/ IsCoff \/ IsDon \/ IsDoff \/ IsEnd \/ IsMutex \/ IsLate \/ IsPrint
Spec == Init /\ [][Next]_vars

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
RECURSIVE Subseq(_)
Subseq(cs) == IF cs = {} THEN <<>> ELSE LET c == CHOOSE x \in cs : TRUE IN (IF Pick(1..2) = 1 THEN <<c>> ELSE <<>>) \o Subseq(cs \ {c})
ManyOf == {<<2, 3>>, <<3, 4, 5>>, <<2, 3, 4, 5>>, <<5>>}
RandomOp(n) ==
  LET t == Pick(Threads)  o == Pick(Others)  c == Pick(Channels \ {Late})  r == Pick(1..40)
  IN IF ~S.inited /\ r > 12 THEN [op |-> "init", t |-> 1, on |-> Subseq(Channels \ {Late, "ELFUTILS"})]
     ELSE CASE r <= 6 -> [op |-> "con", t |-> t, c |-> c]
       [] r <= 10 -> [op |-> "coff", t |-> (IF r <= 8 THEN t ELSE 1), c |-> c]
       [] r <= 12 -> [op |-> "don", t |-> (IF r = 11 THEN t ELSE 1)]
       [] r <= 14 -> [op |-> "doff", t |-> (IF r = 13 THEN t ELSE 1)]
       [] r <= 24 -> Start(o, Pick(Modes), Pick(Names1 \cup Names2))
       [] r <= 27 -> [op |-> "many", t |-> 1, ts |-> Pick(ManyOf), mode |-> Pick(Modes), name |-> Pick(Names1 \cup Names2), id |-> "ID"]
       [] r <= 32 -> [op |-> "end", t |-> o]
       [] r <= 33 -> IF Pick(1..4) = 1 THEN [op |-> "mutex", t |-> 1] ELSE [op |-> "end", t |-> o]
       [] r <= 34 -> [op |-> "late", t |-> 1]
       [] OTHER -> [op |-> "print", t |-> t, c |-> c]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

View == S
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

LastOp == hist'[Len(hist')]
\* init_thread only concerns the calling thread, and what it turns on does not depend on what other threads did since init(),
\* except for the main thread in copy mode.
OnlyOwn == [][\A t \in Threads : (hist' # hist /\ LastOp.t # t) => S'.th[t] = S.th[t]]_vars
FromRc == [][(hist' # hist /\ LastOp.op = "start" /\ LastOp.mode \in {"rc", "default"}) => OnSet(S', LastOp.t) = S.rc /\ ObjOn(S', LastOp.t)]_vars
CopiesMain == [][(hist' # hist /\ LastOp.op = "start" /\ LastOp.mode = "copy") => OnSet(S', LastOp.t) = OnSet(S, 1) /\ (ObjOn(S', LastOp.t) <=> ObjOn(S, 1))]_vars
OffIsOff == [][(hist' # hist /\ LastOp.op = "start" /\ LastOp.mode = "off") => OnSet(S', LastOp.t) = {} /\ ~ObjOn(S', LastOp.t)]_vars
LockSet == \A t \in Threads : S.th[t].ready => S.lock # "none"
NamedMargins == \A t \in Threads : (t # 1 /\ S.th[t].ready) => (S.th[t].margin = "ID" \/ Len(S.th[t].margin) = 16)
RcFixed == [][S.inited => S'.rc = S.rc]_vars
=============================================================================
