----------------------------- MODULE MangleTrace -----------------------------
EXTENDS Mangle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Expect(e) == CASE e.t = "null" -> Verdict("(null)", FALSE) [] e.t = "type" -> Type(e.m) [] OTHER -> Symbol(e.m)
Step(e) ==
  CASE e.op = "name" ->
         LET v == Expect(e)
         IN IF e.mut
            \* Not what a compiler generates: nothing that was in the string is lost, and there is a text.
            THEN /\ Need(StartsWith(e.out, e.pre) /\ (Len(e.out) > Len(e.pre) \/ e.m = ""), "text after what was in the string", e.pre)
                 /\ (v.maybe \/ v.out = e.m \/ Need(e.out \in {e.pre \o v.out, e.pre \o e.m}, "text of this name", <<v.out, e.m>>))
            ELSE Need(e.out = e.pre \o v.out \/ (v.maybe /\ e.out = e.pre \o e.m), "text of this name", v)
    [] e.op = "threads" -> Need(e.bad = <<>>, "text when several threads do this", e.bad)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> TRUE
          [] e.e = "Op" -> Step(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok")
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
