------------------------------- MODULE GlobMC -------------------------------
EXTENDS Glob, Json
CONSTANTS Letters, MaxMask, MaxLabel, Depth, EmitScripts
VARIABLES S, hist     \* S: the automaton while it reads a label.
vars == <<S, hist>>
Masks == Words(Letters \cup {"*"}, MaxMask)
Labels == Words(Letters, MaxLabel)
Init == S = [m |-> "", l |-> "", rest |-> "", P |-> {}, at |-> "idle"] /\ hist = <<>>
Choose == /\ S.at = "idle"
          /\ \E m \in Masks, l \in Labels : /\ S' = [m |-> m, l |-> l, rest |-> l, P |-> Start(m), at |-> "reading"]
                                            /\ hist' = <<[op |-> "mask", m |-> m, ls |-> <<>>]>>
Step == /\ S.at = "reading" /\ UNCHANGED hist
        /\ IF S.rest = "" \/ S.P = {} THEN S' = [S EXCEPT !.at = IF S.rest = "" /\ Len(S.m) \in S.P THEN "yes" ELSE "no"]
           ELSE S' = [S EXCEPT !.rest = From(S.rest, 2), !.P = Read(S.m, S.P, At(S.rest, 1))]
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
View == <<S, hist>>
EmitC == (EmitScripts /\ S.at = "idle" /\ S'.l = "") => PrintT("SCRIPT " \o ToJson(hist'))
Terminates == (S.at = "reading") ~> (S.at \in {"yes", "no"})
Exact == S.at \in {"yes", "no"} => ((S.at = "yes") <=> Matches(S.m, S.l))
\* Consequences that a user relies on.
Sane == S.at \in {"yes", "no"} =>
          /\ (Stars(S.m) = 0 => (S.at = "yes" <=> S.m = S.l))
          /\ (S.m # "" /\ Stars(S.m) = Len(S.m) => S.at = "yes")
          /\ (Len(S.m) - Stars(S.m) > Len(S.l) => S.at = "no")

\* Random long labels, with masks that are made from a label.
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RECURSIVE RandWord(_, _)
RandWord(A, n) == IF n = 0 THEN "" ELSE RandomElement(Now(A)) \o RandWord(A, n - 1)
RECURSIVE Mutate(_)
Mutate(w) == IF w = "" THEN (IF RandomElement(Now(1..4)) = 1 THEN "*" ELSE "")
             ELSE LET r == RandomElement(Now(1..12)) IN
                  (CASE r = 1 -> "*" [] r = 2 -> "*" \o At(w, 1) [] r = 3 -> RandomElement(Now(Letters)) [] r = 4 -> "**" [] OTHER -> At(w, 1))
                  \o Mutate(From(w, IF r \in {1, 4} THEN 2 + RandomElement(Now(0..3)) ELSE 2))
RandomOp == LET w == RandWord(Letters, RandomElement(Now(1..MaxLabel))) IN [op |-> "mask", m |-> Mutate(w), ls |-> <<w>>]
SimNext == \E op \in {RandomOp} : Len(hist) < Depth /\ hist' = Append(hist, op) /\ UNCHANGED S
SimSpec == Init /\ [][SimNext]_vars
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
