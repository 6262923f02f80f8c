------------------------------- MODULE TextMC -------------------------------
EXTENDS Text, Json, FiniteSets
CONSTANTS Bytes, Depth, EmitScripts
VARIABLES S, hist
vars == <<S, hist>>
AllBytes == 0..255
\* One of every class, the borders of the classes, and characters that occur in escapes.
FewBytes == {0, 6, 7, 10, 13, 14, 27, 28, 31, 32, 48, 65, 92, 97, 101, 110, 120, 126, 127, 128, 160, 255}
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ S' = Apply(S, op) /\ hist' = Append(hist, op)
Next == \E b \in Bytes : Do([op |-> "char", b |-> <<b>>])
Spec == Init /\ [][Next]_vars
View == S
EmitC == EmitScripts => (Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist')))
EmitEnd == EmitC
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RECURSIVE Rand(_)
Rand(n) == IF n = 0 THEN <<>> ELSE <<IF RandomElement(Now(1..3)) = 1 THEN RandomElement(Now(FewBytes)) ELSE RandomElement(Now(AllBytes))>> \o Rand(n - 1)
RandomOp == LET r == RandomElement(Now(1..6)) IN
            IF r = 1 THEN [op |-> "char", b |-> Rand(1)]
            ELSE [op |-> "buf", b |-> Rand(IF RandomElement(Now(1..8)) = 1 THEN 0 ELSE RandomElement(Now(1..40))), v |-> RandomElement(Now({"ptr", "string", "view", "dout"}))]
SimNext == \E op \in {RandomOp} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

RECURSIVE Written(_)
Written(h) == IF h = <<>> THEN <<>> ELSE Head(h).b \o Written(Tail(h))
\* The bytes can be recovered from the text.
Unambiguous == Decode(S) = Written(hist)
\* Only printable characters are written.
Printable == \A i \in 1..Len(S) : Pos(Printables, At(S, i)) > 0
\* Different error numbers have different names; every name is there.
ASSUME ErrorsDistinct ==
  \A m, n \in 0..Len(ErrnoNames) : m # n => ((ErrorNames(m) \cap ErrorNames(n)) \subseteq {Unknown, "EDEADLOCK", "EWOULDBLOCK"})
=============================================================================
