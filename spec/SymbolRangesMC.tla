--------------------------- MODULE SymbolRangesMC ---------------------------
EXTENDS SymbolRanges, Json
CONSTANTS Depth, EmitScripts
VARIABLES S, hist
vars == <<S, hist>>
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ S' = Insert(S, op) /\ hist' = Append(hist, op)
Op(s, e, d) == [op |-> "insert", s |-> s, en |-> e, dwarf |-> d]
\* Empty ranges are included, and some that end before they start.
Elf == \E s \in Addrs, e \in Addrs : (s < e \/ (s = e /\ s = 1) \/ (s = 3 /\ e = 1)) /\ Do(Op(s, e, FALSE))
Dwarf == \E s \in Addrs, e \in Addrs : (s < e \/ (s = e /\ s = 1) \/ (s = 3 /\ e = 1)) /\ Do(Op(s, e, TRUE))
Next == Elf \/ Dwarf
Spec == Init /\ [][Next]_vars
Now(X) == IF Len(S.syms) >= 0 THEN X ELSE {}   \* Keeps TLC from evaluating a random choice only once.
RandomOp(n) == LET s == RandomElement(Now(Addrs))
                   len == RandomElement(Now({0, 1, 1, 2, 2, 3, 4, 5, 8, 12, 20}))
                   e == IF s + len > MaxAddr THEN MaxAddr ELSE s + len
               IN Op(IF RandomElement(Now(1..40)) = 1 THEN MaxAddr ELSE s, e, RandomElement(Now({TRUE, FALSE})))
SimNext == \E op \in {RandomOp(Len(hist))} : Do(op)
SimSpec == Init /\ [][SimNext]_vars
View == S
EmitC == EmitScripts => (Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist')))
EmitEnd == EmitC

\* The order of preference, independent of the history: debug information, size, first come.
Better(i, j) == LET x == S.syms[i]  y == S.syms[j]
                IN IF x.dwarf # y.dwarf THEN x.dwarf ELSE IF Size(x) # Size(y) THEN Size(x) < Size(y) ELSE i < j
Covering(a) == {i \in DOMAIN S.syms : In(S.syms[i], a)}
Best == \A a \in Addrs : IF Covering(a) = {} THEN S.owner[a] = 0
                         ELSE S.owner[a] \in Covering(a) /\ \A i \in Covering(a) : i = S.owner[a] \/ Better(S.owner[a], i)
\* An insertion only ever takes addresses in its own range.
Local == [][\A a \in Addrs : S'.owner[a] # S.owner[a] => (S'.owner[a] = Len(S'.syms) /\ In(S'.syms[Len(S'.syms)], a))]_vars
=============================================================================
