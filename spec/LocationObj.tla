---------------------------- MODULE LocationObj ----------------------------
(***************************************************************************)
(* libcwd::Location: objects in slots 1..N that are constructed, looked    *)
(* up, copied, assigned, cleared, locked and destroyed in any order, and   *)
(* the ownership of the source file paths that copies share.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* number of slots
          Threads,    \* the threads that look; each has its own location_format
          Early,      \* the program starts before main_reached()
          AddrsUsed   \* the addresses (of Addrs) that are used

Slots == 1..N

\* What is at the addresses that the driver uses.
\*   known: object, function, directory, file and line;  func: object and function only;  obj: only the object;  none.
Known(func, dir, file, line) == [k |-> "known", obj |-> "EXE", func |-> func, dir |-> dir, file |-> file, line |-> line]
Addrs == [f1   |-> Known("_Z6loc_f1v", "/verif-src/a/", "fileA.cpp", 101),
          f1b  |-> Known("_Z6loc_f1v", "/verif-src/a/", "fileA.cpp", 104),
          f2   |-> Known("_ZN3loc2f2Ei", "/verif-src/a/", "fileA.cpp", 1000000),
          f3   |-> Known("loc_f3", "/verif-src/deeper/dir.d/", "x", 7),
          inl  |-> Known("_ZN3loc5innerEv", "/verif-src/a/", "inline.h", 33),
          inl2 |-> Known("_ZN3loc5outerEv", "/verif-src/a/", "inline.h", 43),
          tmpl |-> Known("_ZN3loc1TIcE4callEv", "/verif-src/", "a file with spaces.cpp", 55),
          lib |-> [k |-> "func", obj |-> "libstdc++.so.6", func |-> "_ZSt9terminatev"],
          asm  |-> [k |-> "obj", obj |-> "EXE"],
          heap |-> [k |-> "none"]]

A_two == {"f1", "lib"}
A_three == {"f1", "f2", "heap"}
A_all == DOMAIN Addrs
A_early == {"f1", "f3", "lib", "heap"}
A_kinds == {"f1", "f3", "lib", "asm", "heap"}
T_one == {0}
T_two == {0, 1}

NoSlot == [up |-> FALSE, st |-> "none", a |-> "", pre |-> FALSE, path |-> 0, own |-> FALSE, lock |-> FALSE]
Init0 == [s |-> [i \in Slots |-> NoSlot], freed |-> {}, paths |-> 0, main |-> ~Early, fmt |-> [t \in Threads |-> 0]]

\* A lookup before main_reached() finds no more than the function, and the object keeps that.
Addr(x) == IF x.pre /\ Addrs[x.a].k = "known" THEN [Addrs[x.a] EXCEPT !.k = "func"] ELSE Addrs[x.a]
IsKnown(x) == x.up /\ x.st = "loc" /\ Addr(x).k = "known"
\* The path of this slot was freed by another one, that had become the owner of it: the object may only be cleared,
\* looked up anew, assigned to, or destroyed.
Dangling(S, x) == IsKnown(x) /\ x.path \in S.freed
Usable(S, i) == S.s[i].up /\ ~Dangling(S, S.s[i])
Shared(S, i, j) == IsKnown(S.s[i]) /\ IsKnown(S.s[j]) /\ S.s[i].own /\ S.s[i].path = S.s[j].path

Clear(S, i) ==
  LET x == S.s[i]
      T == IF IsKnown(x) /\ x.own THEN [S EXCEPT !.freed = @ \cup {x.path}] ELSE S
  IN [T EXCEPT !.s[i].st = "cleared", !.s[i].a = "", !.s[i].pre = FALSE, !.s[i].path = 0, !.s[i].own = FALSE]

\* A lookup makes a new path; a lock that was put on the object remains.
Look(S, i, a) ==
  LET T == [S EXCEPT !.s[i].up = TRUE, !.s[i].st = "loc", !.s[i].a = a, !.s[i].pre = ~S.main]
  IN IF Addrs[a].k = "known" /\ S.main
     THEN [T EXCEPT !.paths = @ + 1, !.s[i].path = S.paths + 1, !.s[i].own = TRUE]
     ELSE T

\* i becomes equal to j; the ownership moves, unless j is locked.
Take(S, i, j) ==
  LET y == S.s[j]
      T == [S EXCEPT !.s[i].up = TRUE, !.s[i].st = y.st, !.s[i].a = y.a, !.s[i].pre = y.pre]
  IN IF IsKnown(y)
     THEN [T EXCEPT !.s[i].path = y.path, !.s[i].own = y.own /\ ~y.lock, !.s[j].own = y.own /\ y.lock]
     ELSE T

Enabled(S, op) ==
  LET i == op.i IN
  CASE op.op \in {"new", "newat"} -> ~S.s[i].up
    [] op.op = "copy" -> ~S.s[i].up /\ Usable(S, op.j)
    [] op.op = "assign" -> S.s[i].up /\ Usable(S, op.j)
    [] op.op \in {"pc", "clear", "destroy"} -> S.s[i].up
    \* Only the owner may lock (anything else is a failed assertion).
    [] op.op = "lock" -> Usable(S, i) /\ (IsKnown(S.s[i]) => S.s[i].own)
    [] op.op = "fmt" -> TRUE
    [] op.op = "main" -> ~S.main

Apply(S, op) ==
  LET i == op.i IN
  CASE op.op = "new" -> [S EXCEPT !.s[i] = [NoSlot EXCEPT !.up = TRUE, !.st = "uninit"]]
    [] op.op = "newat" -> Look(S, i, op.a)
    [] op.op = "copy" -> Take(S, i, op.j)
    [] op.op = "assign" -> IF i = op.j THEN S ELSE IF Shared(S, i, op.j) THEN S ELSE Take(Clear(S, i), i, op.j)
    [] op.op = "pc" -> Look(Clear(S, i), i, op.a)
    [] op.op = "clear" -> Clear(S, i)
    [] op.op = "destroy" -> [Clear(S, i) EXCEPT !.s[i] = NoSlot]
    [] op.op = "lock" -> IF IsKnown(S.s[i]) THEN [S EXCEPT !.s[i].lock = TRUE] ELSE S
    [] op.op = "main" -> [S EXCEPT !.main = TRUE]
    [] op.op = "fmt" -> [S EXCEPT !.fmt[op.t] = op.f]

\* What the operation returns: the previous format.
Result(S, op) == IF op.op = "fmt" THEN S.fmt[op.t] ELSE -1

HasBit(f, b) == (f \div b) % 2 = 1
\* What is printed: bits 1 (path), 2 (object file) and 4 (function) of the format.
Printed(x, f) ==
  IF x.st # "loc" THEN "<unknown object file> (at 0)"
  ELSE LET d == Addr(x) IN
    CASE d.k = "known" -> (IF HasBit(f, 2) THEN d.obj \o ":" ELSE "") \o (IF HasBit(f, 4) THEN d.func \o ":" ELSE "")
                          \o (IF HasBit(f, 1) THEN d.dir ELSE "") \o d.file \o ":" \o ToString(d.line)
      [] d.k = "func" -> d.obj \o ":" \o d.func
      [] d.k = "obj" -> d.obj \o ":<unknown function>"
      [] OTHER -> "<unknown object file> (at PC)"

Func(x) ==
  CASE x.st = "uninit" -> "<uninitialized Location>"
    [] x.st = "cleared" -> "<cleared location>"
    [] OTHER -> IF Addr(x).k \in {"known", "func"} THEN Addr(x).func ELSE "<unknown function>"

\* What can be seen of a slot by a thread with format f.
View1(S, i, f) ==
  LET x == S.s[i]
      base == [up |-> x.up, dangling |-> Dangling(S, x)]
  IN IF ~Usable(S, i) THEN base
     ELSE LET d == IF x.st = "loc" THEN Addr(x) ELSE [k |-> "none"]
          IN [up |-> TRUE, dangling |-> FALSE, known |-> IsKnown(x), printed |-> Printed(x, f), func |-> Func(x),
              obj |-> IF d.k = "none" THEN "" ELSE d.obj,
              pc |-> IF x.st = "loc" /\ d.k = "none" THEN "PC" ELSE "0", delayed |-> FALSE,
              file |-> IF d.k = "known" THEN d.file ELSE "", path |-> IF d.k = "known" THEN d.dir \o d.file ELSE "",
              line |-> IF d.k = "known" THEN d.line ELSE 0,
              flen |-> IF d.k = "known" THEN Len(d.file) ELSE 0, plen |-> IF d.k = "known" THEN Len(d.dir \o d.file) ELSE 0]
Obs(S, t) == [i \in Slots |-> View1(S, i, S.fmt[t])]

Alive(S) == (1..S.paths) \ S.freed
\* How many paths are still allocated.
Live(S) == Cardinality(Alive(S))
=============================================================================
