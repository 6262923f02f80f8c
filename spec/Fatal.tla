------------------------------- MODULE Fatal -------------------------------
(***************************************************************************)
(* The end of a program by DoutFatal or by misuse that libcwd detects,     *)
(* with several threads that do that, and print, at the same time.         *)
(*                                                                         *)
(* Every operation begins (Invoke), takes effect, and returns or not.      *)
(* A statement that does not return writes its message, sees to it that it *)
(* is delivered, and claims the right to end the process; only one thread  *)
(* gets it, all others wait.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads
Objects == {0, 1}
Streams == {0, 1, 2}    \* Of the two debug objects, and std::cerr.
StackMax == 64

Idle == [op |-> "none"]
Thread0 == [cur |-> Idle, ph |-> "idle", ooff |-> [o \in Objects |-> -1], coff |-> -1, open |-> [o \in Objects |-> <<>>],
            margin |-> [o \in Objects |-> 0], marker |-> [o \in Objects |-> 0], dead |-> FALSE]
\* nl: the thread that wrote the last, not terminated, line of a debug object.
\* buf: what was written to a stream and is not flushed yet, as a sequence of lines. flushed: the same, delivered.
Init0 == [thr |-> [t \in Threads |-> Thread0], buf |-> [s \in Streams |-> <<>>], nl |-> [o \in Objects |-> 0], owner |-> 0, kind |-> "", ended |-> ""]

IsOn(T, o) == T.ooff[o] < 0
Prints(T, o) == IsOn(T, o) /\ T.coff < 0    \* dc::notice

\* Flags of a message: a set of words.
Spaces(n) == SubSeq("                                                                ", 1, n)
Prefix(label, fl, depth) == IF "noprefix" \in fl THEN "" ELSE (IF "nolabel" \in fl THEN "" ELSE IF "blank" \in fl THEN Spaces(8) \o ": " ELSE label \o ": ") \o (IF "nolabel" \in fl THEN "" ELSE Spaces(4 * depth))
Tail0(fl) == (IF "error" \in fl THEN ": ENOENT (No such file or directory)" ELSE "") \o (IF "nonewline" \in fl THEN "" ELSE "\n")
Message(label, fl, depth, n) == Prefix(label, fl, depth) \o "t" \o ToString(n) \o Tail0(fl)
Stream(op) == IF "cerr" \in op.fl THEN 2 ELSE op.o
\* An open line is written when something else has to be written in the middle of it.
Interrupted(T, o) == [i \in DOMAIN T.open[o] |-> "NOTICE  : t" \o ToString(T.open[o][i]) \o " <unfinished>\n"]

\* The misuses that libcwd detects, and when they are one.
Misused(T, op) ==
  CASE op.op = "fin" -> T.open[op.o] = <<>> /\ IsOn(T, op.o)
    [] op.op = "cont" -> T.open[op.o] = <<>> /\ IsOn(T, op.o)
    [] op.op = "popmargin" -> T.margin[op.o] = 0
    [] op.op = "popmarker" -> T.marker[op.o] = 0
    [] op.op = "pushmargin" -> T.margin[op.o] = StackMax
    [] op.op = "pushmarker" -> T.marker[op.o] = StackMax
    [] op.op = "con" -> T.coff < 0
    [] op.op \in {"longlabel", "longfatal", "restore", "crestore", "fatalcont"} -> TRUE
    [] op.op = "recurse" -> Prints(T, op.o)
    [] OTHER -> FALSE
\* DoutFatal, with statements around it: those evaluate their arguments only when they print.
Dies(T, op) == op.op = "fatal" /\ (op.depth = 0 \/ Prints(T, op.o))
Kind(op) == IF op.op = "fatal" /\ op.kind \in {"fatal", "ufatal"} THEN "exit180" ELSE "sig6"

\* The state of a thread after an operation that returns, and the lines that it prints.
After(T, op) ==
  CASE op.op = "off" -> [T EXCEPT !.ooff[op.o] = @ + 1]
    [] op.op = "on" -> [T EXCEPT !.ooff[op.o] = @ - 1]
    [] op.op = "coff" -> [T EXCEPT !.coff = @ + 1]
    [] op.op = "con" -> [T EXCEPT !.coff = @ - 1]
    [] op.op = "open" /\ Prints(T, op.o) -> [T EXCEPT !.open[op.o] = Append(@, op.n)]
    [] op.op = "fin" /\ IsOn(T, op.o) -> [T EXCEPT !.open[op.o] = <<>>]
    [] op.op = "pushmargin" -> [T EXCEPT !.margin[op.o] = @ + 1]
    [] op.op = "popmargin" -> [T EXCEPT !.margin[op.o] = @ - 1]
    [] op.op = "pushmarker" -> [T EXCEPT !.marker[op.o] = @ + 1]
    [] op.op = "popmarker" -> [T EXCEPT !.marker[op.o] = @ - 1]
    [] op.op = "end" -> [T EXCEPT !.dead = TRUE]
    [] OTHER -> T
\* The last two are channels of the program itself.
LabelOf(kind) == CASE kind = "fatal" -> "FATAL   " [] kind = "core" -> "COREDUMP" [] kind = "ufatal" -> "MYFATAL " [] kind = "ucore" -> "MINE    "
Printed(T, op) ==
  CASE op.op = "say" /\ Prints(T, op.o) -> <<Message("NOTICE  ", op.fl, 0, op.n)>>
    [] op.op = "fin" /\ IsOn(T, op.o) -> <<"NOTICE  : t" \o ToString(T.open[op.o][1]) \o " t" \o ToString(op.n) \o "\n">>
    [] op.op = "fatal" /\ Dies(T, op) -> <<Message(LabelOf(op.kind), op.fl, op.depth, op.n)>>
    [] OTHER -> <<>>
Enabled(T, op) ==
  /\ ~T.dead
  /\ op.op = "open" => T.open[op.o] = <<>> /\ IsOn(T, op.o)
  /\ op.op = "cont" => T.open[op.o] = <<>>
  /\ op.op = "on" => ~IsOn(T, op.o) /\ T.open[op.o] = <<>>
  /\ op.op = "off" => T.open[op.o] = <<>> /\ T.ooff[op.o] < 2
  /\ op.op = "coff" => T.coff < 2
  \* What happens to an open line when the process ends is decided by DebugOutput.tla.
  /\ op.op = "end" => \A o \in Objects : T.open[o] = <<>>
  /\ op.op \in {"say", "fatal", "fatalcont", "recurse", "cont"} => T.open[op.o] = <<>>

\* The steps.
CanInvoke(S, t, op) == S.ended = "" /\ S.thr[t].ph = "idle" /\ Enabled(S.thr[t], op)
Invoke(S, t, op) == [S EXCEPT !.thr[t].cur = op, !.thr[t].ph = "run"]
CanEffect(S, t) == S.ended = "" /\ S.thr[t].ph = "run"
Effect(S, t) ==
  LET T == S.thr[t]  op == T.cur
  IN IF Misused(T, op) THEN [S EXCEPT !.thr[t].ph = "broken"]
     ELSE LET first == IF S.nl[op.o] \in {0, t} THEN <<>> ELSE <<"<no newline>\n">>
              S1 == IF Printed(T, op) = <<>> THEN S
                    ELSE [S EXCEPT !.buf[Stream(op)] = @ \o first \o Printed(T, op), !.nl[op.o] = IF "nonewline" \in op.fl THEN t ELSE 0]
          IN IF Dies(T, op) THEN [S1 EXCEPT !.thr[t].ph = "wrote"] ELSE [S1 EXCEPT !.thr[t] = [After(T, op) EXCEPT !.ph = "done"]]
CanReturn(S, t) == S.ended = "" /\ S.thr[t].ph = "done"
Return(S, t) == [S EXCEPT !.thr[t].ph = "idle", !.thr[t].cur = Idle]
\* Everything that is in a stream's buffer is delivered (by whoever flushes).
Deliver(S, s) == [S EXCEPT !.buf[s] = <<>>]
\* The message of a dying thread is always delivered before anything else happens.
CanClaim(S, t) == S.ended = "" /\ \/ S.thr[t].ph = "wrote" /\ S.buf[Stream(S.thr[t].cur)] = <<>>
                                  \/ S.thr[t].ph = "broken"
Claim(S, t) == IF S.owner = 0 THEN [S EXCEPT !.owner = t, !.kind = Kind(S.thr[t].cur), !.thr[t].ph = "ending"]
               ELSE [S EXCEPT !.thr[t].ph = "stuck"]
CanEnd(S) == S.ended = "" /\ S.owner # 0
End(S) == [S EXCEPT !.ended = S.kind]
=============================================================================
