----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, Json
CONSTANTS Depth, EmitScripts, LabelMenu, Texts, MaxNew
VARIABLES S, hist
vars == <<S, hist>>
Menu1 == {"A", "AB", "aa", "ZZZZZZZZZZ", "WARN"}
Menu2 == {"FOO", "FOO", "F-O", "F O", "MMMMMMMMMMMMMMMM"}
Menu3 == {"A", "AB", "ab", "aa", "B", "A!", "A B", "ZZZZZZZZZZ", "WARN", "WARNINGS", "WARNING", "FOO", "foo", "F-O", "MMMMMMMMMMMMMMMM", "M", "~", "!", "12345678", "123456789", "NOTIC", "_x"}
Texts1 == {"", "a", "AB", "w"}
Texts3 == {"", "a", "A", "ab", "AB ", "w", "Warn", "ZZZZZZZZZZ", "ZZZZZZZZZZ ", "DEBUG   ", "debug         ", "x", "foo", "f", "m", "NOTICE", "!", "!never", "RCFILE", "12345678", "_"}
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op) /\ hist' = Append(hist, op)
NextK == Cardinality(DOMAIN S.chans) + 1
IsNew == \E lb \in LabelMenu, h \in BOOLEAN : NextK <= 5 + MaxNew /\ (h => lb = "A" \/ lb = "FOO") /\ Do([op |-> "new", t |-> 1, k |-> NextK, label |-> lb, hidden |-> h])
IsNewT == \E t \in Threads \ {1} : NextK <= 5 + MaxNew /\ Do([op |-> "new", t |-> t, k |-> NextK, label |-> "THR" \o ToString(NextK), hidden |-> FALSE])
IsCon == \E k \in DOMAIN S.chans : k > 4 /\ Do([op |-> "con", t |-> 1, k |-> k])
IsFind == \E x \in Texts : hist # <<>> /\ Len(hist) = Depth - 1 /\ Do([op |-> "find", t |-> 1, text |-> x])
IsList == hist # <<>> /\ Len(hist) = Depth - 1 /\ Do([op |-> "list", t |-> 1])
IsOut == Do([op |-> "out", t |-> 1])
IsObj == S.objs < 3 /\ Do([op |-> "obj", t |-> 1])
Next == IsNew \/ IsNewT \/ IsCon \/ IsFind \/ IsList \/ IsOut \/ IsObj
Spec == Init /\ [][Next]_vars

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
\* A program for each of several threads that run at the same time; thread t creates the channels 100 t + 1, ...
RECURSIVE Prog(_, _, _)
Prog(t, i, n) ==
  IF i > n THEN <<>>
  ELSE LET r == Pick(1..10)
       IN <<CASE r <= 3 -> [op |-> "new", t |-> t, k |-> 1000 * Len(hist) + 100 * t + i, label |-> Pick(Menu3), hidden |-> (Pick(1..6) = 1)]
              [] r <= 6 -> [op |-> "look", t |-> t]
              [] r <= 8 -> [op |-> "find", t |-> t, text |-> Pick(Texts3)]
              [] r <= 9 -> [op |-> "list", t |-> t]
              [] OTHER -> [op |-> "coff", t |-> t, k |-> Pick(1..5)]>> \o Prog(t, i + 1, n)
RandomOp(n) ==
  LET t == Pick(Threads)  r == Pick(1..40)
  IN CASE r <= 10 -> [op |-> "new", t |-> t, k |-> 1000 * Len(hist) + 1, label |-> Pick(Menu3), hidden |-> (Pick(1..6) = 1)]
       [] r <= 16 -> [op |-> "con", t |-> t, k |-> Pick(DOMAIN S.chans)]
       [] r <= 19 -> [op |-> "coff", t |-> t, k |-> Pick(DOMAIN S.chans)]
       [] r <= 24 -> [op |-> "say", t |-> t, k |-> Pick(DOMAIN S.chans)]
       [] r <= 28 -> [op |-> "find", t |-> t, text |-> Pick(Texts3)]
       [] r <= 31 -> [op |-> "list", t |-> t]
       [] r <= 34 -> [op |-> "out", t |-> t]
       [] r <= 35 -> IF S.objs < 4 THEN [op |-> "obj", t |-> 1] ELSE [op |-> "list", t |-> t]
       [] OTHER -> [op |-> "look", t |-> t]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == Cardinality(DOMAIN S.chans) < 60 /\ \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars
\* The same, with parts that several threads do at the same time; those are not applied here.
ParNext == \/ \E op \in {IF Pick(1..3) = 1 THEN [op |-> "par", t |-> 1, progs |-> [i \in 1..(Cardinality(Threads) - 1) |-> Prog(i + 1, 1, Pick(2..5))]] ELSE Draw(50)} :
                IF op.op = "par" THEN Len(hist) < Depth /\ hist' = Append(hist, op) /\ UNCHANGED S
                ELSE Do(op)
ParSpec == Init /\ [][ParNext]_vars

View == S
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

Public == {k \in DOMAIN S.chans : ~S.chans[k].hidden}
VisitsAllOnce == Cardinality({S.vis[i] : i \in DOMAIN S.vis}) = Len(S.vis) /\ {S.vis[i] : i \in DOMAIN S.vis} = Public
Alphabetical == \A i \in 1..(Len(S.vis) - 1) : ~Less(Label(S, S.vis[i + 1]), Label(S, S.vis[i]))
WidthIsLongest == S.width = (CHOOSE w \in 8..16 : (\A k \in DOMAIN S.chans : Len(S.chans[k].label) <= w) /\ (w = 8 \/ \E k \in DOMAIN S.chans : Len(S.chans[k].label) = w))
OnlyWarningOn == [][\A k \in DOMAIN S'.chans \ DOMAIN S.chans : \A t \in Threads : On(S', t, k) => S'.chans[k].label = "WARNING"]_vars
NewIsHarmless == [][Cardinality(DOMAIN S'.chans) # Cardinality(DOMAIN S.chans) => \A k \in DOMAIN S.chans : S'.chans[k] = S.chans[k]]_vars
\* Any two orders of creation give the same order of labels.
FindIsLast == \A x \in Texts : LET f == FindChan(S, x) IN f # 0 => \A k \in Public : SamePrefix(x, Label(S, k)) => ~Less(Label(S, f), Label(S, k))
=============================================================================
