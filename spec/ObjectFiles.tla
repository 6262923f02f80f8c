---------------------------- MODULE ObjectFiles ----------------------------
(***************************************************************************)
(* The object files that are loaded, and what looking up an address in     *)
(* one of them gives.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The object files that the driver uses: whether they are loaded at the start of the program, what they depend on (for
\* N: what its constructor opens and its destructor closes), and whether they have debug information.
Libs == [A |-> [start |-> FALSE, deps |-> {}, debug |-> TRUE],
         B |-> [start |-> FALSE, deps |-> {"A"}, debug |-> TRUE],
         C |-> [start |-> FALSE, deps |-> {}, debug |-> FALSE],
         N |-> [start |-> FALSE, deps |-> {"A"}, debug |-> TRUE],
         S |-> [start |-> TRUE, deps |-> {}, debug |-> TRUE],
         X |-> [start |-> FALSE, deps |-> {"B", "C"}, debug |-> TRUE],
         EXE |-> [start |-> TRUE, deps |-> {"S"}, debug |-> TRUE]]
All == DOMAIN Libs
Openable == All \ {"EXE"}

\* cnt: open handles; keep: opened with RTLD_NODELETE; had: was loaded once, so that an address in it is known.
Init0 == [cnt |-> [l \in All |-> 0], keep |-> {}, had |-> {l \in All : Libs[l].start}]

RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION {Libs[l].deps : l \in X} IN IF Y = X THEN X ELSE Closure(Y)
Loaded(S) == Closure({l \in All : Libs[l].start \/ S.cnt[l] > 0 \/ l \in S.keep})

\* Flags: "noload", "nodelete", "global", "lazy", or combinations.
Has(op, f) == \E k \in DOMAIN op.fl : op.fl[k] = f
Enabled(S, op) ==
  CASE op.op = "open" -> op.l \in Openable
    \* (Too many closes are a mistake of the user.)
    [] op.op = "close" -> S.cnt[op.l] > 0
    [] op.op = "look" -> op.l \in S.had
    [] op.op \in {"null", "empty", "missing"} -> TRUE
    [] op.op = "par" -> TRUE

\* The net effect of a program: every thread closes only what it opened itself.
Net(prog, l) == Cardinality({k \in DOMAIN prog : prog[k].op = "open" /\ prog[k].l = l}) - Cardinality({k \in DOMAIN prog : prog[k].op = "close" /\ prog[k].l = l})
RECURSIVE SumNet(_, _, _)
SumNet(progs, l, n) == IF n = 0 THEN 0 ELSE Net(progs[n], l) + SumNet(progs, l, n - 1)
Opened(progs) == {l \in All : \E n \in DOMAIN progs : \E k \in DOMAIN progs[n] : progs[n][k].op = "open" /\ progs[n][k].l = l}

Apply(S, op) ==
  LET T == CASE op.op = "open" -> IF Has(op, "noload") /\ op.l \notin Loaded(S) THEN S
                                  ELSE [S EXCEPT !.cnt[op.l] = @ + 1, !.keep = IF Has(op, "nodelete") THEN @ \cup {op.l} ELSE @]
             [] op.op = "close" -> [S EXCEPT !.cnt[op.l] = @ - 1]
             [] op.op = "par" -> [S EXCEPT !.cnt = [l \in All |-> S.cnt[l] + SumNet(op.progs, l, Len(op.progs))], !.had = @ \cup Closure(Opened(op.progs))]
             [] OTHER -> S
  IN [T EXCEPT !.had = @ \cup Loaded(T)]

\* What dlopen (not NULL) or dlclose (zero) returns.
Result(S, op) ==
  CASE op.op = "open" -> ~Has(op, "noload") \/ op.l \in Loaded(S)
    [] op.op = "missing" -> FALSE
    [] OTHER -> TRUE

\* The result of looking up the address of the function in l, while it is loaded.
Func(l) == "_ZN" \o ToString(Len(l)) \o l \o "1fEv"
Found(l) == [obj |-> l, func |-> Func(l), func2 |-> Func(l), known |-> Libs[l].debug,
             file |-> IF Libs[l].debug THEN "/verif-src/" \o l \o ".cpp:42" ELSE ""]
\* While it isn't, the address can be in another object that was loaded there since; `dl` is what the loader says
\* (also for an address between its segments).
Right(S, r) ==
  IF r.l \in Loaded(S)
  THEN [obj |-> r.obj, func |-> r.func, func2 |-> r.func2, known |-> r.known, file |-> r.file] = Found(r.l) /\ r.dl = r.l
  ELSE r.dl # r.l /\ r.obj \in {r.dl, ""} /\ (r.obj = "" => r.func = "<unknown function>" /\ r.func2 = "<unknown function>" /\ ~r.known)
=============================================================================
