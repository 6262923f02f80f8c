----------------------------- MODULE AttachGdb -----------------------------
(* attach_gdb(): the commands of the rcfile are used to start a debugger in a terminal, after which the calling thread waits until the
   debugger let it continue.
   c: the configuration: gdb: the value of that keyword (op: how often "x" is appended to it), xterm likewise; set: if false these keywords are not in
   the rcfile.  S.on: whether debug output is on. *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN c ELSE LET h == Rep(c, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN c ELSE "")
Gdb(c) == c.gdb.v \o Rep("x", c.gdb.n)
\* A terminal is a text before and after the place of the command, if it has one.
TermBefore(c) == c.xterm.v
TermAfter(c) == c.xterm.w \o Rep("x", c.xterm.n)
Term(c) == TermBefore(c) \o (IF c.xterm.cmd THEN "%s" ELSE "") \o TermAfter(c)
Command(c, pid) == Gdb(c) \o " -n -x gdb.cmds /proc/" \o ToString(pid) \o "/exe " \o ToString(pid)
Run(c, pid) == TermBefore(c) \o (IF c.xterm.cmd THEN Command(c, pid) ELSE "") \o TermAfter(c)
MaxCommand == 255
MaxRun == 511

Always == ">>>>>>>>: "
Fatal == "FATAL   : "
Core == "COREDUMP: "
Empty == "rcfile: value of keyword 'gdb' is empty. Did you call Debug(read_rcfile()) at all?"
\* op.how: "attach": the debugger lets the program continue; "exit": the terminal ended with status op.code and no debugger was started.
NoTerm(c) == ~c.xterm.cmd
Expect(c, op, on, pid) ==
  LET say(t) == IF on THEN <<Always \o t>> ELSE <<>>
      l1 == say("gdb = \"" \o Gdb(c) \o "\".")
      l2 == say("xterm = \"" \o Term(c) \o "\".")
      run == Run(c, pid)
  IN IF Len(Command(c, pid)) > MaxCommand THEN [end |-> "exit180", lines |-> Append(l1, Fatal \o "rcfile: value of keyword 'gdb' too long (" \o Gdb(c) \o ")"), runs |-> FALSE]
     ELSE IF Gdb(c) = "" THEN [end |-> "exit180", lines |-> Append(l1, Fatal \o Empty), runs |-> FALSE]
     ELSE IF Len(run) > MaxRun THEN [end |-> "exit180", lines |-> l1 \o l2 \o say("Executing \"" \o SubSeq(run, 1, MaxRun) \o "\".") \o
                                                       <<Fatal \o "rcfile: value of keyword 'xterm' too long (" \o Term(c)>>, runs |-> FALSE]
     ELSE LET l3 == say("Executing \"" \o run \o "\".") IN
          IF op.how = "exit" THEN [end |-> "sig6", lines |-> l1 \o l2 \o l3 \o <<Core \o "Failed to start gdb: 'xterm' terminated with exit code " \o ToString(op.code) \o " before attaching to the process.">>,
                                   runs |-> TRUE]
          ELSE [end |-> "", lines |-> l1 \o l2 \o l3 \o say("ATTACHED!"), runs |-> TRUE]
=============================================================================
