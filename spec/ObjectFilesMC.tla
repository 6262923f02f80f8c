--------------------------- MODULE ObjectFilesMC ---------------------------
EXTENDS ObjectFiles, Json
CONSTANTS Depth, Use, FlagMenu, MaxCnt, Progs, EmitScripts
VARIABLES S, hist
vars == <<S, hist>>

Last(s) == s[Len(s)]
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op) /\ hist' = Append(hist, op)

U_deps == {"A", "B", "S"}
U_deep == {"A", "B", "C", "X"}
U_nest == {"A", "N", "B"}
U_all == Openable
L_plain == {<<>>}
L_some == {<<>>, <<"noload">>, <<"nodelete">>}
L_all == {<<>>, <<"noload">>, <<"nodelete">>, <<"global">>, <<"lazy">>, <<"noload", "nodelete">>, <<"lazy", "global", "nodelete">>}

\* Programs for threads that run at the same time: lookups only in what the thread has open itself, or what is always loaded.
O(l) == [op |-> "open", l |-> l, fl |-> <<>>]
C(l) == [op |-> "close", l |-> l]
K(l) == [op |-> "look", l |-> l]
P_none == {}
P_all == {<<O("A"), K("A"), C("A"), O("C"), K("C"), K("EXE"), C("C")>>,
          <<O("B"), K("A"), K("B"), C("B"), O("B"), K("B"), C("B")>>,
          <<O("C"), C("C"), O("C"), K("C"), C("C"), O("A"), K("A"), C("A")>>,
          <<K("S"), K("EXE"), O("S"), K("S"), C("S"), K("S")>>,
          <<O("N"), K("N"), K("A"), C("N"), K("EXE")>>,
          <<O("X"), K("C"), C("X"), O("X"), K("B"), K("A"), O("A")>>}
Rep(p, n) == p \o p \o IF n > 2 THEN p \o p ELSE <<>>
RandomProg(n) == LET k == RandomElement(2..4) IN Rep(RandomElement(Progs), k)

Open == \E l \in Use : \E f \in FlagMenu : S.cnt[l] < MaxCnt /\ Do([op |-> "open", l |-> l, fl |-> f])
Close == \E l \in Use : Do([op |-> "close", l |-> l])
Look == \E l \in Use \cup {"EXE"} : Do([op |-> "look", l |-> l])
Odd == \E w \in {"null", "empty", "missing"} : Do([op |-> w, l |-> "EXE"])
Next == Open \/ Close \/ Look \/ Odd
Spec == Init /\ [][Next]_vars

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RandomOp(n) ==
  LET r == RandomElement(Now(1..20))  l == RandomElement(Now(Use))
  IN CASE r <= 8 -> [op |-> "open", l |-> l, fl |-> RandomElement(Now(IF RandomElement(Now(1..3)) = 1 THEN FlagMenu ELSE {<<>>}))]
       [] r <= 16 -> [op |-> "close", l |-> l]
       [] r <= 18 \/ Progs = {} -> [op |-> "look", l |-> RandomElement(Now(All))]
       [] r <= 19 -> [op |-> RandomElement(Now({"null", "empty", "missing"})), l |-> "EXE"]
       [] OTHER -> [op |-> "par", l |-> "EXE", progs |-> [k \in 1..RandomElement(Now(2..5)) |-> RandomProg(k)]]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars
\* Scripts of nothing but threads.
ParNext == Do([op |-> "par", l |-> "EXE", progs |-> [k \in 1..RandomElement(Now(2..6)) |-> RandomProg(k)]])
ParSpec == Init /\ [][ParNext]_vars

View == S
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

\* What is open is loaded, with all that it depends on, and what was there at the start always is.
OpenLoaded == \A l \in All : (S.cnt[l] > 0 \/ Libs[l].start \/ l \in S.keep) => Closure({l}) \subseteq Loaded(S)
\* Nothing else is loaded.
NoneElse == \A l \in Loaded(S) : \E m \in All : l \in Closure({m}) /\ (S.cnt[m] > 0 \/ Libs[m].start \/ m \in S.keep)
\* Only the last dlclose unloads; then it does, unless something else needs it.
LastCloses == [][\A l \in All : (l \in Loaded(S) /\ l \notin Loaded(S')) => S'.cnt[l] = 0 /\ l \notin S.keep /\ ~Libs[l].start /\ Last(hist').op \in {"close", "par"}]_vars
LookNothing == [][(hist' # hist /\ Last(hist').op \in {"look", "null", "empty", "missing"}) => S' = S]_vars
\* Opening with RTLD_NOLOAD loads nothing.
NoLoad == [][(hist' # hist /\ Last(hist').op = "open" /\ Has(Last(hist'), "noload")) => Loaded(S') = Loaded(S)]_vars
=============================================================================
