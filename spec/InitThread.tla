----------------------------- MODULE InitThread -----------------------------
(***************************************************************************)
(* init() and init_thread(): which channels are on, whether debug output   *)
(* is on, the margin and the lock.  Thread 1 is the main thread.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Channels, Late    \* Late: a channel with a longer label than any other, that is created at some point

At(s, i) == SubSeq(s, i, i)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(s \o " ", n)
UpTo(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
ToSet(s) == {s[i] : i \in DOMAIN s}

\* A thread: off counters of the channels and of the debug object (below 0 is on), and the margin.
Fresh == [up |-> FALSE, ch |-> [c \in Channels |-> 0], obj |-> 0, margin |-> "", ready |-> FALSE]
Init0 == [th |-> [t \in Threads |-> IF t = 1 THEN [Fresh EXCEPT !.up = TRUE, !.ch["WARNING"] = -1] ELSE Fresh],
          rc |-> {}, inited |-> FALSE, lock |-> "none", late |-> FALSE]

On(S, t, c) == S.th[t].ch[c] < 0
OnSet(S, t) == {c \in Channels : On(S, t, c)}
ObjOn(S, t) == S.th[t].obj < 0
Width(S) == IF S.late THEN 16 ELSE 11
Prefix(S, t, c) == S.th[t].margin \o Pad(c, Width(S)) \o ": "

\* The calling thread turns on the channels in set that it does not have on yet.
TurnOn(T, set) == [T EXCEPT !.ch = [c \in Channels |-> IF c \in set /\ T.ch[c] >= 0 THEN T.ch[c] - 1 ELSE T.ch[c]]]
Margin(name) == Pad(UpTo(name, 15), 16)
Mode(S, mode) == IF mode = "copy" /\ ~ObjOn(S, 1) THEN [set |-> OnSet(S, 1), out |-> FALSE]
                 ELSE IF mode = "copy" THEN [set |-> OnSet(S, 1), out |-> TRUE]
                 ELSE IF mode = "off" THEN [set |-> {}, out |-> FALSE]
                 ELSE [set |-> S.rc, out |-> TRUE]
InitThread(S, t, mode, name, id) ==
  LET m == Mode(S, mode)
      T == TurnOn(S.th[t], m.set)
  IN [S EXCEPT !.th[t] = [T EXCEPT !.up = TRUE, !.ready = TRUE, !.obj = IF m.out THEN @ - 1 ELSE @, !.margin = IF name = "" THEN id ELSE Margin(name)],
               !.lock = IF @ = "none" THEN "cout" ELSE @]
Init1(S, on) ==
  LET T == S.th[1]
      ch == [c \in Channels |-> IF c \in on THEN -1 ELSE IF T.ch[c] < 0 THEN 0 ELSE T.ch[c]]
  IN [S EXCEPT !.th[1].ch = ch, !.th[1].obj = @ - 1, !.th[1].ready = TRUE, !.rc = on, !.inited = TRUE, !.lock = IF @ = "none" THEN "cout" ELSE @]

\* The line that init_thread prints when it is given a name.
Started(S, t) == Prefix(S, t, "NOTICE") \o "Thread started. Set debug margin to \"" \o S.th[t].margin \o "\"."

Enabled(S, op) ==
  LET t == op.t IN
  CASE op.op = "init" -> t = 1 /\ ~S.inited
    [] op.op = "start" -> t # 1 /\ S.inited /\ ~S.th[t].ready
    [] op.op = "con" -> S.th[t].up /\ ~On(S, t, op.c) /\ (t # 1 => S.th[t].ready) /\ op.c # Late
    [] op.op \in {"coff", "print"} -> S.th[t].up /\ (t # 1 => S.th[t].ready) /\ op.c # Late
    [] op.op = "don" -> S.th[t].ready /\ ~ObjOn(S, t)
    [] op.op = "doff" -> S.th[t].ready
    [] op.op = "end" -> t # 1 /\ S.th[t].ready
    [] op.op = "mutex" -> t = 1 /\ S.lock # "user"
    [] op.op = "late" -> t = 1 /\ ~S.late
    [] op.op = "many" -> t = 1 /\ S.inited /\ \A x \in ToSet(op.ts) : x # 1 /\ ~S.th[x].ready

\* op.id: the thread id, as it is used for a margin
Apply(S, op) ==
  LET t == op.t IN
  CASE op.op = "init" -> Init1(S, ToSet(op.on))
    [] op.op = "start" -> InitThread(S, t, op.mode, op.name, op.id)
    [] op.op = "con" -> [S EXCEPT !.th[t].ch[op.c] = @ - 1]
    [] op.op = "coff" -> [S EXCEPT !.th[t].ch[op.c] = @ + 1]
    [] op.op = "don" -> [S EXCEPT !.th[t].obj = @ - 1]
    [] op.op = "doff" -> [S EXCEPT !.th[t].obj = @ + 1]
    [] op.op = "end" -> [S EXCEPT !.th[t] = Fresh]
    [] op.op = "mutex" -> [S EXCEPT !.lock = "user"]
    [] op.op = "late" -> [S EXCEPT !.late = TRUE]
    [] op.op = "print" -> S
    [] op.op = "many" -> [S EXCEPT !.th = [x \in Threads |-> IF x \in ToSet(op.ts) THEN InitThread(S, x, op.mode, op.name, op.id).th[x] ELSE S.th[x]],
                                   !.lock = IF @ = "none" THEN "cout" ELSE @]

\* What operation op, that leads to state S, prints.
Lines(S, op) ==
  CASE op.op = "print" -> IF ObjOn(S, op.t) /\ On(S, op.t, op.c) THEN <<Prefix(S, op.t, op.c) \o "text">> ELSE <<>>
    [] op.op = "start" -> IF op.name # "" /\ ObjOn(S, op.t) /\ On(S, op.t, "NOTICE") THEN <<Started(S, op.t)>> ELSE <<>>
    [] op.op = "many" -> IF op.name # "" /\ ObjOn(S, op.ts[1]) /\ On(S, op.ts[1], "NOTICE") THEN [i \in DOMAIN op.ts |-> Started(S, op.ts[i])] ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
