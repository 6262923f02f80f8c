-------------------------------- MODULE Glob --------------------------------
\* Wildcard masks: a "*" stands for any string, every other character for itself.
EXTENDS Naturals, Sequences, FiniteSets, TLC
At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))

\* The definition: replace the first "*" by some string.
RECURSIVE Matches(_, _)
Matches(m, l) ==
  IF m = "" THEN l = ""
  ELSE IF At(m, 1) = "*" THEN \E k \in 1..(Len(l) + 1) : Matches(From(m, 2), From(l, k))
  ELSE l # "" /\ At(l, 1) = At(m, 1) /\ Matches(From(m, 2), From(l, 2))

\* An automaton that reads the label once: the set of positions in the mask that can have been reached.
RECURSIVE Skip(_, _)
Skip(m, i) == IF i < Len(m) /\ At(m, i + 1) = "*" THEN {i} \cup Skip(m, i + 1) ELSE {i}
Start(m) == Skip(m, 0)
Read(m, P, c) == UNION {IF i < Len(m) /\ At(m, i + 1) = c /\ c # "*" THEN Skip(m, i + 1) ELSE {} : i \in P}
                 \cup UNION {IF i < Len(m) /\ At(m, i + 1) = "*" THEN Skip(m, i) ELSE {} : i \in P}
RECURSIVE Run(_, _, _)
Run(m, P, l) == IF l = "" THEN Len(m) \in P ELSE Run(m, Read(m, P, At(l, 1)), From(l, 2))
Match(m, l) == Run(m, Start(m), l)

RECURSIVE Stars(_)
Stars(m) == IF m = "" THEN 0 ELSE (IF At(m, 1) = "*" THEN 1 ELSE 0) + Stars(From(m, 2))
RECURSIVE Words(_, _)
Words(A, n) == IF n = 0 THEN {""} ELSE LET W == Words(A, n - 1) IN W \cup {w \o a : w \in {x \in W : Len(x) = n - 1}, a \in A}
=============================================================================
