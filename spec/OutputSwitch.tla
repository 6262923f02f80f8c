---------------------------- MODULE OutputSwitch ----------------------------
(***************************************************************************)
(* The contract of set_ostream() and of everything that prints meanwhile,  *)
(* in terms of operations of threads that begin and end, and of what is    *)
(* done to the locks and the streams in between.                           *)
(*                                                                         *)
(* A destination is a pair <<s, k>> of a stream and its lock (0: none).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Start     \* Start: the destinations of the debug objects in the beginning.
Objects == DOMAIN Start
Cerr == 9
Locks == 1..4
None == [op |-> "none"]

\* cur: the destination of each object.  run: what each thread is doing; could[t]: the destinations that were the current one
\* at some moment since that began and that still may be used;  holder, want: of the locks.
Init0 == [cur |-> Start, run |-> [t \in Threads |-> None], could |-> [t \in Threads |-> {}], swapped |-> [t \in Threads |-> FALSE],
          text |-> [t \in Threads |-> ""], said |-> [t \in Threads |-> FALSE],
          holder |-> [k \in Locks |-> 0], want |-> [t \in Threads |-> 0]]

Line(op) == "NOTICE  : t" \o ToString(op.t) \o "n" \o ToString(op.n) \o "\n"
Switching(C, t) == C.run[t].op \in {"sw", "swo"}
New(C, op) == IF op.op = "sw" THEN <<op.s, op.k>> ELSE <<op.s, C.cur[op.o][2]>>
\* Destinations that somebody still can rely on: the current ones, and those that an unfinished set_ostream() deals with.
Alive(C) == {C.cur[o] : o \in Objects} \union UNION {C.could[t] : t \in {u \in Threads : Switching(C, u)}}
          \union {New(C, C.run[t]) : t \in {u \in Threads : Switching(C, u)}}
AliveLock(C, k) == \E p \in Alive(C) : p[2] = k
Holds(C, t) == {k \in Locks : C.holder[k] = t}

CanInv(C, op) == C.run[op.t] = None
Inv(C, op) == [C EXCEPT !.run[op.t] = op, !.could[op.t] = IF op.op = "app" THEN {<<op.s, op.k>>} ELSE {C.cur[op.o]}, !.swapped[op.t] = FALSE, !.text[op.t] = "", !.said[op.t] = FALSE]
\* The moment at which set_ostream() takes effect.
CanSwap(C, t) == Switching(C, t) /\ ~C.swapped[t]
Swap(C, t) == LET op == C.run[t]  p == New(C, op)
              IN [C EXCEPT !.cur[op.o] = p, !.swapped[t] = TRUE,
                           !.could = [u \in Threads |-> IF C.run[u].op \notin {"none", "app"} /\ C.run[u].o = op.o THEN @[u] \union {p} ELSE @[u]]]
\* A thread begins to lock (want), gets it, writes, unlocks.
CanWant(C, t, k) == /\ C.run[t].op \in {"say", "sw", "swo", "app"}
                    /\ \E p \in C.could[t] : p[2] = k
                    /\ C.run[t].op = "app" \/ AliveLock(C, k)
                    /\ C.want[t] = 0 /\ C.holder[k] # t
Want(C, t, k) == [C EXCEPT !.want[t] = k]
CanAcq(C, t, k) == C.want[t] = k /\ C.holder[k] = 0
Acq(C, t, k) == [C EXCEPT !.want[t] = 0, !.holder[k] = t]
CanWrite(C, t, s) == LET op == C.run[t]
                     IN /\ op.op \in {"say", "app"}
                        /\ ~C.said[t]
                        /\ \E p \in C.could[t] : /\ p[2] # 0 => C.holder[p[2]] = t
                                                 /\ p[1] = s \/ (op.op = "say" /\ op.cerr /\ s = Cerr)
                        /\ (op.op = "say" /\ op.cerr) => s = Cerr
Write(C, t, x) == [C EXCEPT !.text[t] = @ \o x]
\* All of a statement is written in the same critical section.
CanRel(C, t, k) == C.holder[k] = t /\ (C.text[t] # "" => C.text[t] = Line(C.run[t]))
Rel(C, t, k) == [C EXCEPT !.holder[k] = 0, !.said[t] = C.text[t] # ""]
\* The end of operations.  When set_ostream() returns, nobody may use the previous destination anymore.
CanRes(C, t, result) ==
  LET op == C.run[t]
  IN /\ op # None
     /\ Holds(C, t) = {} /\ C.want[t] = 0
     /\ CASE op.op \in {"say", "app"} -> C.text[t] = Line(op)
          [] op.op \in {"sw", "swo"} -> C.swapped[t]
          [] op.op = "get" -> \E p \in C.could[t] : p[1] = result
          [] op.op = "has" -> \E p \in C.could[t] : (p[2] # 0) = (result = 1)
Res(C, t) ==
  LET D == [C EXCEPT !.run[t] = None, !.could[t] = {}]
  IN IF ~Switching(C, t) THEN D ELSE [D EXCEPT !.could = [u \in Threads |-> IF D.run[u].op = "say" THEN @[u] \cap Alive(D) ELSE @[u]]]
\* Nobody is still busy with a lock that can be destroyed now.
Released(C) == \A u \in Threads : C.run[u].op = "app" \/ \A k \in Holds(C, u) \union ({C.want[u]} \ {0}) : AliveLock(C, k)
=============================================================================
