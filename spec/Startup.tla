------------------------------ MODULE Startup ------------------------------
(***************************************************************************)
(* Libcwd in the constructors and destructors of global objects.           *)
(*                                                                         *)
(* A process goes through the places                                       *)
(*   F  constructor of a global object of a shared library that is         *)
(*      initialized before (or after) libcwd itself                        *)
(*   A, B  constructors of global objects of the program                   *)
(*   M  main()      P  constructor in a library that main() loads          *)
(*   N  main(), after that                                                 *)
(*   p, b, a, f  the destructors, after main() returned or exit() was      *)
(*      called (by the main thread or another one)                         *)
(* and in each of them uses libcwd.  The state of libcwd only depends on   *)
(* what was done, not on where that was: it is initialized once, at the    *)
(* first call of initialize() or when it is its turn, and nothing that was *)
(* set before or after that is lost.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Places == <<"F", "A", "B", "M", "P", "N", "p", "b", "a", "f">>
Builtin == {"DEBUG", "ELFUTILS", "NOTICE", "SYSTEM", "WARNING"}
\* In alphabetical order.
AllLabels == <<"AAAA", "DEBUG", "ELFUTILS", "LONGER LABEL", "NOTICE", "NOTICES", "SYSTEM", "USER", "WARN", "WARNING">>
UserLabels == {AllLabels[i] : i \in DOMAIN AllLabels} \ Builtin

Max(a, b) == IF a > b THEN a ELSE b
Blank == "                                                  "
Spaces(n) == SubSeq(Blank, 1, n)
Pad(s, n) == s \o Spaces(n - Len(s))

NoCont == [st |-> "no", pend |-> "", pfx |-> "", unf |-> FALSE]
\* cfg: order ("before", "after"), core (hard limit in kb, -1: none), nomsg, load, plug, how ("return", "exit", "thread", "worker": by another thread, that used libcwd)
S0(cfg) == [cfg |-> cfg, place |-> 0, ini |-> FALSE, on |-> 0, ch |-> [x \in {} |-> 0], os |-> 0, af |-> 0, margin |-> "", indent |-> 0,
            cont |-> NoCont, obj |-> FALSE, on2 |-> 0, thr |-> FALSE, reached |-> FALSE, other |-> FALSE, dead |-> "ok"]

RECURSIVE WidthOf(_, _)
WidthOf(S, i) == IF i = 0 THEN 8 ELSE LET w == WidthOf(S, i - 1) IN IF AllLabels[i] \in DOMAIN S.ch THEN Max(w, Len(AllLabels[i])) ELSE w
Width(S) == WidthOf(S, Len(AllLabels))

NoText == [c |-> "", s1 |-> "", s2 |-> "", s3 |-> ""]
NoFlush == [s1 |-> 0, s2 |-> 0, s3 |-> 0]
Quiet(S) == [s |-> S, txt |-> NoText, fl |-> NoFlush, load |-> FALSE]
Where(S) == CASE S.os = 0 -> "c" [] S.os = 1 -> "s1" [] S.os = 2 -> "s2"
\* Text t on the current stream, and flushed if asked for.
Wrote(S, t, flush) == [s |-> S, txt |-> [NoText EXCEPT ![Where(S)] = t], load |-> FALSE,
                       fl |-> IF flush /\ S.os > 0 THEN [NoFlush EXCEPT ![Where(S)] = 1] ELSE NoFlush]

Add(ch, labels, warn) == [x \in DOMAIN ch \cup labels |-> IF x \in DOMAIN ch THEN ch[x] ELSE IF warn /\ x = "WARNING" THEN -1 ELSE 0]

Loading(S) == S.cfg.load /\ ~S.cfg.nomsg
\* The initialization; nothing when that was done before.
Initialize(S) ==
  IF S.ini THEN Quiet(S)
  ELSE LET T == [S EXCEPT !.ini = TRUE, !.ch = Add(@, Builtin, TRUE)]
           k == S.cfg.core
       IN [Quiet(T) EXCEPT !.load = Loading(S),
             !.txt = IF k <= 0 \/ S.cfg.nomsg THEN @
                     ELSE [@ EXCEPT !.c = Pad("WARNING", Width(T)) \o ": core size is limited (hard limit: " \o ToString(k)
                                          \o " kb).  Core dumps might be truncated!\n"]]

ChanOn(S, c) == c \in DOMAIN S.ch /\ S.ch[c] < 0
Prefix(S, c) == S.margin \o Pad(c, Width(S)) \o ": " \o Spaces(S.indent + IF S.cont.st = "on" THEN 4 ELSE 0)
\* What precedes the text of a statement: the interruption of a line that is not finished.
Interrupt(S) == IF S.cont.st = "on" /\ S.cont.unf THEN S.cont.pend \o "<unfinished>\n" ELSE ""
Interrupted(S) == IF S.cont.st = "on" /\ S.cont.unf THEN [S EXCEPT !.cont.pend = S.cont.pfx \o "<continued> ", !.cont.unf = FALSE] ELSE S
Line(S, c, s, flush) == Wrote(Interrupted(S), Interrupt(S) \o Prefix(S, c) \o s \o "\n", flush)

Out(S, op) == IF S.on < 0 /\ ChanOn(S, op.c) THEN Line(S, op.c, op.s, S.af > 0) ELSE Quiet(S)
Cont(S, op) == Quiet([S EXCEPT !.cont = IF ChanOn(S, op.c) THEN [st |-> "on", pend |-> Prefix(S, op.c) \o op.s, pfx |-> Prefix(S, op.c), unf |-> TRUE]
                                        ELSE [NoCont EXCEPT !.st = "off"]])
Piece(S, op) == Quiet(IF S.cont.st = "on" THEN [S EXCEPT !.cont.pend = @ \o op.s, !.cont.unf = TRUE] ELSE S)
Fin(S, op) == IF S.cont.st = "on" THEN Wrote([S EXCEPT !.cont = NoCont], S.cont.pend \o op.s \o "\n", FALSE)
              ELSE Quiet([S EXCEPT !.cont = NoCont])
\* The message is also written when the debug object is off.
Fatal(S, op) == Line([S EXCEPT !.dead = IF op.core THEN "sig6" ELSE "exit180"], IF op.core THEN "COREDUMP" ELSE "FATAL", op.s, TRUE)

\* A thread that turns the debug object and NOTICE on, prints and ends.
Thread(S, op) == Wrote([S EXCEPT !.thr = TRUE], Pad("NOTICE", Width(S)) \o ": " \o op.s \o "\n", S.af > 0)

\* The second debug object: created, turned on, with a stream of its own.
Out2(S, op) == IF S.on2 < 0 /\ ChanOn(S, op.c) THEN [Quiet(S) EXCEPT !.txt.s3 = Pad(op.c, Width(S)) \o ": " \o op.s \o "\n"] ELSE Quiet(S)

\* What is specific for a thread is as in a new thread when the destructors are run by another thread than the main thread.
Switch(S) == [S EXCEPT !.on = 0, !.on2 = 0, !.ch = [x \in DOMAIN @ |-> 0], !.margin = "", !.indent = 0, !.cont = NoCont, !.other = TRUE]
IndexOf(p) == CHOOSE i \in DOMAIN Places : Places[i] = p
Used(cfg, i) == Places[i] \in {"P", "N", "p"} => cfg.plug
RECURSIVE NextPlace(_, _)
NextPlace(cfg, i) == IF Used(cfg, i + 1) THEN i + 1 ELSE NextPlace(cfg, i + 1)
Place(S, op) ==
  LET i == IndexOf(op.p)
      T == [S EXCEPT !.place = i]
      r == IF i > 1 \/ S.cfg.order = "after" THEN Initialize(T) ELSE Quiet(T)
      D == IF i >= IndexOf("p") /\ S.place < IndexOf("p") /\ S.cfg.how \in {"thread", "worker"} THEN [r EXCEPT !.s = Switch(@)] ELSE r
      \* The thread that calls exit() printed something first: also that is forgotten.
      W == IF D.s.other /\ ~S.other /\ S.cfg.how = "worker" THEN [Wrote(D.s, Pad("NOTICE", Width(S)) \o ": worker\n", S.af > 0) EXCEPT !.s.thr = TRUE] ELSE D
  IN IF op.p = "N" THEN [D EXCEPT !.load = Loading(S)] ELSE W

Apply(S, op) ==
  CASE op.op = "place" -> Place(S, op)
    [] op.op = "init" -> Initialize(S)
    [] op.op = "chan" -> Quiet([S EXCEPT !.ch = Add(@, {op.c}, FALSE)])
    [] op.op = "obj" -> LET r == Initialize(S) IN [r EXCEPT !.s.obj = TRUE, !.s.on2 = -1]
    [] op.op = "on" -> Quiet([S EXCEPT !.on = @ - 1])
    [] op.op = "off" -> Quiet([S EXCEPT !.on = @ + 1])
    [] op.op = "con" -> Quiet([S EXCEPT !.ch[op.c] = @ - 1])
    [] op.op = "coff" -> Quiet([S EXCEPT !.ch[op.c] = @ + 1])
    [] op.op = "go" -> Quiet([S EXCEPT !.on = -1, !.ch["NOTICE"] = -1, !.os = 1])
    [] op.op = "os" -> Quiet([S EXCEPT !.os = op.n])
    [] op.op = "afon" -> Quiet([S EXCEPT !.af = @ + 1])
    [] op.op = "afoff" -> Quiet([S EXCEPT !.af = @ - 1])
    [] op.op = "app" -> Quiet([S EXCEPT !.margin = @ \o "|"])
    [] op.op = "inc" -> Quiet([S EXCEPT !.indent = @ + 2])
    [] op.op = "out" -> Out(S, op)
    [] op.op = "out2" -> Out2(S, op)
    [] op.op = "cont" -> Cont(S, op)
    [] op.op = "piece" -> Piece(S, op)
    [] op.op = "fin" -> Fin(S, op)
    [] op.op = "fatal" -> Fatal(S, op)
    [] op.op = "thread" -> Thread(S, op)
    [] op.op = "reached" -> Quiet([S EXCEPT !.reached = TRUE])
    [] op.op \in {"list", "loc", "names"} -> Quiet(S)

Closed(S) == S.cont.st = "no"
Enabled(S, op) ==
  /\ S.dead = "ok"
  /\ op.op = "place" => S.place < Len(Places) /\ op.p = Places[NextPlace(S.cfg, S.place)]
                        /\ (op.p \in {"P", "N"} \/ S.cfg.how \in {"thread", "worker"} => Closed(S))
                        /\ (op.p \in {"b", "p"} /\ S.cfg.how \in {"thread", "worker"} => S.os > 0)
  /\ op.op # "place" => S.place > 0
  \* Before initialize() was called channels and debug objects can be created.
  /\ op.op \notin {"place", "init", "chan", "obj", "con", "coff"} => S.ini
  /\ op.op = "chan" => op.c \in UserLabels \ DOMAIN S.ch
  /\ op.op \in {"con", "coff", "out", "out2", "cont"} => op.c \in DOMAIN S.ch
  /\ op.op = "con" => S.ch[op.c] > -1
  /\ op.op = "coff" => S.ch[op.c] < 2
  /\ op.op = "obj" => ~S.obj /\ ~S.thr /\ ~S.other
  /\ op.op = "out2" => S.obj
  /\ op.op \in {"on", "off", "go", "os", "afon", "afoff", "app", "inc", "thread"} => Closed(S)
  /\ op.op = "on" => S.on > -1
  /\ op.op = "off" => S.on < 2
  /\ op.op = "go" => S.on = 0 /\ S.ch["NOTICE"] = 0
  /\ op.op = "afoff" => S.af > 0
  /\ op.op = "app" => Len(S.margin) < 3
  /\ op.op = "inc" => S.indent < 8
  \* Several threads need a lock, which is set together with the stream.
  \* While a library is loaded a new thread has to wait (the loader is locked).
  /\ op.op = "thread" => S.os > 0 /\ Places[S.place] # "P"
  /\ op.op \in {"out", "cont", "fatal"} => S.os > 0 \/ ~(S.thr \/ S.other)
  /\ op.op = "cont" => Closed(S) /\ S.on < 0 /\ S.af = 0
  /\ op.op \in {"piece", "fin"} => ~Closed(S)
  /\ op.op = "reached" => Places[S.place] \in {"M", "N"} /\ ~S.reached

\* The channels in the order in which they are visited.
List(S) == LET here == SelectSeq(AllLabels, LAMBDA x : x \in DOMAIN S.ch)
           IN [i \in DOMAIN here |-> [label |-> Pad(here[i], Width(S)), on |-> S.ch[here[i]] < 0]]
=============================================================================
