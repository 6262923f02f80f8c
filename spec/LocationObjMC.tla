--------------------------- MODULE LocationObjMC ---------------------------
EXTENDS LocationObj, Json
CONSTANTS Depth, Fmts, EmitScripts
VARIABLES S, hist
vars == <<S, hist>>

F_none == {}
F_some == {0, 7}
F_all == 0..7
Last(s) == s[Len(s)]
Init == S = Init0 /\ hist = <<>>
\* With every operation goes the set of slots that may be looked at afterwards.
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op)
          /\ hist' = Append(hist, op @@ [see |-> {i \in Slots : Usable(S', i)}])

Pick0 == CHOOSE t \in Threads : \A u \in Threads : t <= u
\* Slots are interchangeable: a new object goes in the first free one.
Free == {i \in Slots : ~S.s[i].up /\ \A j \in 1..(i - 1) : S.s[j].up}
New == \E i \in Free : Do([op |-> "new", i |-> i, t |-> Pick0])
NewAt == \E i \in Free : \E a \in AddrsUsed : Do([op |-> "newat", i |-> i, a |-> a, t |-> Pick0])
Copy == \E i \in Free : \E j \in Slots : Do([op |-> "copy", i |-> i, j |-> j, t |-> Pick0])
Assign == \E i, j \in Slots : Do([op |-> "assign", i |-> i, j |-> j, t |-> Pick0])
Pc == \E i \in Slots : \E a \in AddrsUsed : Do([op |-> "pc", i |-> i, a |-> a, t |-> Pick0])
ClearIt == \E i \in Slots : Do([op |-> "clear", i |-> i, t |-> Pick0])
Destroy == \E i \in Slots : Do([op |-> "destroy", i |-> i, t |-> Pick0])
Lock == \E i \in Slots : Do([op |-> "lock", i |-> i, t |-> Pick0])
Fmt == \E t \in Threads : \E f \in Fmts : Do([op |-> "fmt", i |-> 1, f |-> f, t |-> t])
Main == Do([op |-> "main", i |-> 1, t |-> Pick0])
Next == Main \/ New \/ NewAt \/ Copy \/ Assign \/ Pc \/ ClearIt \/ Destroy \/ Lock \/ Fmt
Spec == Init /\ [][Next]_vars

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RandomOp(n) ==
  LET i == RandomElement(Now(Slots))  j == RandomElement(Now(Slots))  r == RandomElement(Now(1..26))
      a == RandomElement(Now(AddrsUsed))  t == RandomElement(Now(Threads))
  IN CASE Early /\ r = 1 /\ ~S.main -> [op |-> "main", i |-> 1, t |-> Pick0]
       [] r <= 2 -> [op |-> "new", i |-> i, t |-> t]
       [] r <= 6 -> [op |-> "newat", i |-> i, a |-> a, t |-> t]
       [] r <= 10 -> [op |-> "copy", i |-> i, j |-> j, t |-> t]
       [] r <= 15 -> [op |-> "assign", i |-> i, j |-> j, t |-> t]
       [] r <= 18 -> [op |-> "pc", i |-> i, a |-> a, t |-> t]
       [] r <= 19 -> [op |-> "clear", i |-> i, t |-> t]
       [] r <= 21 -> [op |-> "destroy", i |-> i, t |-> t]
       [] r <= 23 -> [op |-> "lock", i |-> i, t |-> t]
       [] OTHER -> [op |-> "fmt", i |-> 1, f |-> RandomElement(Now(0..7)), t |-> t]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

\* Paths are renamed in the order of the slots that have them.
Rename(p) == IF p = 0 THEN 0 ELSE CHOOSE i \in Slots : S.s[i].path = p /\ \A j \in 1..(i - 1) : S.s[j].path # p
View == <<[i \in Slots |-> [S.s[i] EXCEPT !.path = Rename(S.s[i].path)]], {i \in Slots : Dangling(S, S.s[i])}, S.fmt, S.main>>
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

Owners(s, p) == {i \in Slots : IsKnown(s.s[i]) /\ s.s[i].own /\ s.s[i].path = p}
\* Every path that was not freed has exactly one owner, and a freed one has none.
OneOwner == \A p \in 1..S.paths : Cardinality(Owners(S, p)) = (IF p \in S.freed THEN 0 ELSE 1)
NoPathNoOwner == \A i \in Slots : (S.s[i].own => IsKnown(S.s[i])) /\ (IsKnown(S.s[i]) <=> S.s[i].path # 0)
\* A path is freed by an operation on its owner only, and once.
FreedByOwner == [][\A p \in S'.freed \ S.freed : Owners(S, p) = {Last(hist').i} /\ Last(hist').op \in {"assign", "pc", "clear", "destroy"}]_vars
FreedOnce == [][S.freed \subseteq S'.freed]_vars
\* An operation changes the values of no other object.
OthersKeep == [][\A i \in Slots : (hist' # hist /\ Last(hist').i # i) =>
                   /\ S'.s[i].up = S.s[i].up /\ S'.s[i].st = S.s[i].st /\ S'.s[i].a = S.s[i].a /\ S'.s[i].path = S.s[i].path
                   /\ (S.s[i].lock => S'.s[i] = S.s[i])]_vars
\* Copies are equal to what they were made of, and usable.
CopyEqual == [][\A i, j \in Slots : (hist' # hist /\ Last(hist').op \in {"copy", "assign"} /\ Last(hist').i = i /\ Last(hist').j = j) =>
                   Usable(S', i) /\ Usable(S', j) /\ View1(S', i, 7) = View1(S', j, 7) /\ View1(S', j, 7) = View1(S, j, 7)]_vars
=============================================================================
