----------------------------- MODULE SourceLoc -----------------------------
(* What is known about the machine code of a program: from which line of which source file it was generated, in which function that
   line was written and, because functions are inlined, of which function of the object file it is part.

   A program is a sequence of instructions:
     fn k inl    the definition of a function of kind k.  The function in which this happens calls it; or it is inlined there when inl.
     again i     call function i (of which the definition is complete) once more, from here.
     blk k       start of a block (a scope, the body of an if, for, try, catch; cold: something that is never executed).
     end         end of the last block or definition that did not end yet.
     mark        two instructions are generated here, from this line of this file.
     ret         a call to a function that looks up its return address, minus one.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"n", "s", "m", "c", "d", "t", "p", "o", "a", "x", "l"}
Blocks == {"scope", "if", "for", "try", "catch", "cold"}
Empty == [fns |-> <<>>, open |-> <<>>, marks |-> <<>>]
RECURSIVE CurIn(_)
CurIn(o) == IF o = <<>> THEN 0 ELSE IF o[Len(o)].t = "f" THEN o[Len(o)].i ELSE CurIn(SubSeq(o, 1, Len(o) - 1))
\* The function that is being defined, and whether this point of it is ever reached.
Cur(S) == CurIn(S.open)
RECURSIVE WarmIn(_)
WarmIn(o) == IF o = <<>> \/ o[Len(o)].t = "f" THEN TRUE ELSE o[Len(o)].k # "cold" /\ WarmIn(SubSeq(o, 1, Len(o) - 1))
Warm(S) == WarmIn(S.open)
IsOpen(S, i) == \E j \in DOMAIN S.open : S.open[j].t = "f" /\ S.open[j].i = i
Can(S, op) ==
  CASE op.op = "fn" -> IF S.open = <<>> THEN ~op.inl /\ op.k # "l"
                       ELSE op.k = "l" => S.fns[Cur(S)].k \in {"n", "s", "m", "t", "p"}
    [] op.op = "again" -> S.open # <<>> /\ op.i \in DOMAIN S.fns /\ ~IsOpen(S, op.i) /\ S.fns[op.i].k # "l"
    [] op.op \in {"blk", "end", "mark", "ret"} -> S.open # <<>>
Call(S) == [by |-> Cur(S), run |-> Warm(S)]
\* Lambdas of a function are numbered.
Lambdas(S, i) == Cardinality({j \in DOMAIN S.fns : S.fns[j].k = "l" /\ S.fns[j].outer = i})
Apply(S, op) ==
  CASE op.op = "fn" -> [S EXCEPT !.fns = Append(@, [k |-> op.k, inl |-> op.inl, calls |-> {Call(S)}, outer |-> Cur(S), nr |-> Lambdas(S, Cur(S))]),
                                 !.open = Append(@, [t |-> "f", i |-> Len(S.fns) + 1])]
    [] op.op = "again" -> [S EXCEPT !.fns[op.i].calls = @ \cup {Call(S)}]
    [] op.op = "blk" -> [S EXCEPT !.open = Append(@, [t |-> "b", k |-> op.k])]
    [] op.op = "end" -> [S EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
    [] op.op \in {"mark", "ret"} -> [S EXCEPT !.marks = Append(@, [f |-> Cur(S), file |-> op.file, line |-> op.line, ret |-> op.op = "ret", run |-> Warm(S)])]

\* The functions of the object file of which the code of function f is part.
RECURSIVE Phys(_, _)
Phys(S, f) == IF ~S.fns[f].inl THEN {f} ELSE UNION {Phys(S, c.by) : c \in S.fns[f].calls}
RECURSIVE Runs(_, _)
Runs(S, f) == \E c \in S.fns[f].calls : c.by = 0 \/ (c.run /\ Runs(S, c.by))

(* The names of functions.  Usually there is only one, but a constructor exists in several variants and some compilers
   do not give the mangled name of functions that cannot be used elsewhere. *)
Src(x) == ToString(Len(x)) \o x
Id(S, f) == S.fns[f].k \o ToString(f)

RECURSIVE Enc(_, _, _)
Seqno(n) == (IF n = 0 THEN "" ELSE ToString(n - 1)) \o "_"
Enc(S, f, ns) ==
  LET id == Src(Id(S, f))
      in == Src(ns)
  IN CASE S.fns[f].k = "n" -> {"N" \o in \o id \o "Ev"}
       [] S.fns[f].k = "s" -> {"N" \o in \o id \o "1fEv"}
       [] S.fns[f].k = "m" -> {"NK" \o in \o id \o "1fEv"}
       [] S.fns[f].k = "c" -> {"N" \o in \o id \o v \o "Ev" : v \in {"C1", "C2", "C4"}}
       [] S.fns[f].k = "d" -> {"N" \o in \o id \o v \o "Ev" : v \in {"D1", "D2", "D4"}}
       [] S.fns[f].k = "t" -> {"N" \o in \o id \o "ILi" \o ToString(f) \o "EEEvv"}
       [] S.fns[f].k = "p" -> {"N" \o in \o id \o "EiPKc"}
       [] S.fns[f].k = "o" -> {"N" \o in \o "plENS_" \o id \o "Ei"}
       [] S.fns[f].k = "a" -> {"N" \o in \o "12_GLOBAL__N_1" \o id \o "Ev"}
       [] S.fns[f].k = "l" -> {"Z" \o o \o "ENKUlvE" \o Seqno(S.fns[f].nr) \o "clEv" : o \in Enc(S, S.fns[f].outer, ns)}
       [] OTHER -> {}
Names(S, f, ns) == {"_Z" \o n : n \in Enc(S, f, ns)} \cup (IF S.fns[f].k = "a" THEN {Id(S, f)} ELSE {})
                   \cup (IF S.fns[f].k = "x" THEN {Id(S, f) \o "_" \o ns} ELSE {})
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* Clang numbers the lambdas of a function that is not inline differently.
ClangLambda(S, f, ns, n) == S.fns[f].k = "l" /\ (\E o \in Enc(S, S.fns[f].outer, ns) : StartsWith(n, "_ZZ" \o o \o "ENK3$_")) /\ EndsWith(n, "clEv")
\* Debug information does not always contain the mangled name of lambdas.
IsName(S, f, ns, n) == n \in Names(S, f, ns) \/ ClangLambda(S, f, ns, n) \/ (S.fns[f].k = "l" /\ n = "operator()")
\* A symbol of the object file: compilers add something to the names of variants of a function, and of parts that they moved away.
IsSymbol(S, f, ns, n) == IsName(S, f, ns, n) \/ \E m \in Names(S, f, ns) : StartsWith(n, m \o ".")
Unknown == "<unknown function>"
\* What is found when only exported symbols are known.  Those of lambdas are exported if the function they are in is inline.
Stripped(S, p, ns, n) == CASE S.fns[p].k = "a" -> n = Unknown
                           [] S.fns[p].k = "l" -> n = Unknown \/ IsSymbol(S, p, ns, n)
                           [] OTHER -> IsSymbol(S, p, ns, n)
(* What a lookup results in.  e.debug: "full": there is debug information for all of it; "none": only the symbols are known;
   "stripped": only the symbols that can be used by other object files are. *)
Function(S, f, e, n) ==
  CASE e.debug = "full" -> IsName(S, f, e.ns, n) \/ (~S.fns[f].inl /\ IsSymbol(S, f, e.ns, n))
    [] e.debug = "none" -> \E p \in Phys(S, f) : IsSymbol(S, p, e.ns, n)
    [] e.debug = "stripped" -> \E p \in Phys(S, f) : Stripped(S, p, e.ns, n)
Symbol(S, f, e, n) ==
  \E p \in Phys(S, f) : IF e.debug = "stripped" THEN Stripped(S, p, e.ns, n) ELSE IsSymbol(S, p, e.ns, n)
Source(m, e) == IF e.debug = "full" THEN [known |-> TRUE, file |-> m.file, line |-> m.line] ELSE [known |-> FALSE, file |-> "", line |-> 0]
=============================================================================
