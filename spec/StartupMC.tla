----------------------------- MODULE StartupMC -----------------------------
EXTENDS Startup, Json
CONSTANTS Depth, EmitScripts, Menu, Cfgs
VARIABLES S, hist, n
vars == <<S, hist, n>>
Cfg(o, k, m, ld, p, h) == [order |-> o, core |-> k, nomsg |-> m, load |-> ld, plug |-> p, how |-> h]
CfgsFew == {Cfg(o, -1, FALSE, FALSE, FALSE, "return") : o \in {"before", "after"}}
CfgsPlug == {Cfg("before", -1, FALSE, FALSE, TRUE, h) : h \in {"exit", "thread", "worker"}}
CfgsEnv == {Cfg(o, k, m, ld, TRUE, "return") : o \in {"before", "after"}, k \in {-1, 0, 1000}, m \in BOOLEAN, ld \in BOOLEAN}
CfgsAll == {Cfg(o, k, m, ld, p, h) : o \in {"before", "after"}, k \in {-1, 0, 1000}, m \in BOOLEAN, ld \in BOOLEAN, p \in BOOLEAN, h \in {"return", "exit", "thread", "worker"}}
Init == \E c \in Cfgs : S = S0(c) /\ hist = <<[op |-> "cfg", cfg |-> c]>> /\ n = 0
Do(op) == Enabled(S, op) /\ S' = Apply(S, op).s /\ hist' = Append(hist, op) /\ n' = n + 1
Go == \E i \in DOMAIN Places : S.dead = "ok" /\ Enabled(S, [op |-> "place", p |-> Places[i]]) /\ S' = Apply(S, [op |-> "place", p |-> Places[i]]).s
                               /\ hist' = Append(hist, [op |-> "place", p |-> Places[i]]) /\ n' = n
Act == n < Depth /\ \E op \in Menu : Do(op)
Next == Go \/ Act
Spec == Init /\ [][Next]_vars
O(x) == [op |-> x]
C(x, c) == [op |-> x, c |-> c]
T(x, c, s) == [op |-> x, c |-> c, s |-> s]
MenuState == {O("init"), O("go"), T("out", "NOTICE", "text"), O("afon"), [op |-> "os", n |-> 2], O("app")}
MenuChan == {O("init"), C("chan", "LONGER LABEL"), C("con", "LONGER LABEL"), O("go"), T("out", "LONGER LABEL", "text"), O("list")}
MenuCont == {O("go"), T("cont", "NOTICE", "begin "), T("out", "NOTICE", "other"), [op |-> "fin", s |-> "end"], [op |-> "thread", s |-> "thread"], O("init")}
MenuObj == {O("obj"), O("go"), T("out2", "NOTICE", "second"), O("loc"), [op |-> "fatal", core |-> FALSE, s |-> "bye"], [op |-> "thread", s |-> "thread"]}
MenuEnv == {O("init"), T("out", "WARNING", "text"), O("list")}

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
Texts == {"", "x", "some text", "two\nlines"}
AnyCh == IF Pick(1..3) = 1 THEN Pick({AllLabels[i] : i \in DOMAIN AllLabels} \ {"ELFUTILS"}) ELSE "NOTICE"
RandomOp(k) ==
  LET r == Pick(1..50) IN
  CASE r <= 3 -> O("init")
    [] r <= 6 -> C("chan", Pick(UserLabels))
    [] r <= 8 -> O("obj")
    [] r <= 11 -> O("on")
    [] r <= 12 -> O("off")
    [] r <= 16 -> C("con", AnyCh)
    [] r <= 18 -> C("coff", AnyCh)
    [] r <= 21 -> [op |-> "os", n |-> Pick({1, 2})]
    [] r <= 22 -> O("afon")
    [] r <= 23 -> O("afoff")
    [] r <= 24 -> O("app")
    [] r <= 25 -> O("inc")
    [] r <= 33 -> T("out", AnyCh, Pick(Texts))
    [] r <= 35 -> T("out2", AnyCh, Pick(Texts))
    [] r <= 38 -> T("cont", AnyCh, Pick(Texts))
    [] r <= 40 -> [op |-> "piece", s |-> Pick(Texts)]
    [] r <= 42 -> [op |-> "fin", s |-> Pick(Texts)]
    [] r <= 44 -> [op |-> "thread", s |-> Pick(Texts)]
    [] r <= 45 -> O("reached")
    [] r <= 47 -> O("list")
    [] r <= 48 -> O("names")
    [] r <= 49 -> O("loc")
    [] OTHER -> IF Pick(1..4) = 1 THEN [op |-> "fatal", core |-> Pick(BOOLEAN), s |-> Pick(Texts)] ELSE O("go")
RECURSIVE Draw(_)
Draw(k) == LET op == RandomOp(k) IN IF k = 0 \/ Enabled(S, op) THEN op ELSE Draw(k - 1)
NextOp == [op |-> "place", p |-> IF S.place < Len(Places) THEN Places[NextPlace(S.cfg, S.place)] ELSE "?"]
\* With some haste: most scripts have to reach the end.
SimInit == \E c \in {RandomElement(Cfgs)} : S = S0(c) /\ hist = <<[op |-> "cfg", cfg |-> c]>> /\ n = 0
SimNext == \E r \in {Pick(1..4)} :
             IF r = 1 /\ Enabled(S, NextOp) THEN S' = Apply(S, NextOp).s /\ hist' = Append(hist, NextOp) /\ n' = n
             ELSE \E op \in {Draw(40)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

View == <<S, n>>
Ended == S'.place = Len(Places) \/ S'.dead # "ok"
EmitC == (EmitScripts /\ Ended) => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == (S'.dead # "ok" \/ (S'.place = Len(Places) /\ Len(hist') % 5 = 0)) => PrintT("SCRIPT " \o ToJson(hist'))

\* Nothing that was set is lost when the next place is reached: also not when it is libcwd's own turn to be initialized.
Settings(X) == [on |-> X.on, os |-> X.os, af |-> X.af, margin |-> X.margin, indent |-> X.indent, cont |-> X.cont, obj |-> X.obj, on2 |-> X.on2]
Kept == [][(S'.place # S.place /\ ~(S'.other /\ ~S.other)) => Settings(S') = Settings(S) /\ (\A c \in DOMAIN S.ch : S'.ch[c] = S.ch[c])]_vars
\* What is shared by the threads survives also when another thread runs the destructors.
Shared == [][S'.place # S.place => S'.os = S.os /\ S'.af = S.af /\ S'.obj = S.obj]_vars
Once == [][S.ini => S'.ini]_vars
\* Only the warning about the core size and what is turned on is ever printed.
Silence == [][LET r == Apply(S, hist'[Len(hist')]) IN
              (hist' # hist /\ S.on >= 0 /\ ~S.thr /\ S'.dead = "ok") =>
                \/ r.txt = NoText
                \/ (~S.ini /\ S'.ini /\ S.cfg.core > 0 /\ ~S.cfg.nomsg)
                \/ hist'[Len(hist')].op \in {"thread", "out2", "fin"}]_vars
=============================================================================
