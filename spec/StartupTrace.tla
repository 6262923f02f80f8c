---------------------------- MODULE StartupTrace ----------------------------
EXTENDS Startup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, last     \* last: what the last operation has to write
vars == <<S, l, last>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Text(e, txt) == /\ Need(e.txt.c = txt.c, "text on cerr", txt.c)
                /\ Need(e.txt.s1 = txt.s1, "text on the first stream", txt.s1)
                /\ Need(e.txt.s2 = txt.s2, "text on the second stream", txt.s2)
                /\ Need(e.txt.s3 = txt.s3, "text on the third stream", txt.s3)
Op(e) ==
  LET op == e.op
      r == Apply(S, op)
  IN /\ Need(Enabled(S, op), "operation is not possible", e)
     /\ S' = r.s
     /\ last' = r.txt
     /\ op.op = "fatal" \/ (/\ Text(e, r.txt)
                            /\ Need(r.load \/ e.fl = r.fl, "number of flushes", r.fl)
                            /\ Need(e.load = r.load, "messages about loading", r.load))
     /\ op.op = "list" => /\ Need(e.list = List(S), "channels", List(S))
                          /\ Need(e.soft, "limit of the core size", TRUE)
                          /\ Need(e.objs = (IF S.obj THEN 2 ELSE 1), "debug objects", S.obj)
     /\ op.op = "loc" => /\ Need(e.of = "libfirst.so", "object file", "libfirst.so")
                         /\ Need(e.fn = "verif_probe", "function", "verif_probe")
                         /\ Need(e.unknown, "address zero is unknown", TRUE)
     /\ op.op = "names" => /\ Need(e.type = "int const*", "name of a type", "int const*")
                           /\ Need(e.sym = "A::f(int)", "demangled name", "A::f(int)")
TraceInit == S = S0([order |-> "after", core |-> -1, nomsg |-> FALSE, load |-> FALSE, plug |-> FALSE, how |-> "return"]) /\ l = 1 /\ last = NoText
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = S0(e.cfg) /\ last' = NoText
          [] e.e = "Op" -> Op(e)
          [] e.e = "Tail" -> /\ Text(e, IF S.dead # "ok" THEN last ELSE NoText)
                             /\ UNCHANGED <<S, last>>
          [] e.e = "Exit" -> Need(e.st = S.dead, "end of the program", S.dead) /\ UNCHANGED <<S, last>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"Failed matching the trace to the specification at", d>>, FALSE)
=============================================================================
