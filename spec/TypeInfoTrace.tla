---------------------------- MODULE TypeInfoTrace ----------------------------
EXTENDS TypeInfo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Step(e) ==
  CASE e.op = "info" -> LET v == Expect(e.w, e.p) IN
         /\ Need(e.name = v.name, "name of the type", v)
         /\ Need(e.dem = v.dem, "demangled name of the type", v)
         /\ Need(e.size = v.size, "size", v)
         /\ Need(e.ref = v.ref, "size of what it points to", v)
    \* Everything that was ever reported for a type is the same, no matter when and by which thread.
    [] e.op = "threads" -> Need(e.bad = <<>>, "information when several threads do this", e.bad)
    [] e.op = "races" -> Need(e.n = 0, "number of data races", 0)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> TRUE
          [] e.e = "Op" -> Step(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok")
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
