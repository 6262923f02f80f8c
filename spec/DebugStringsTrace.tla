-------------------------- MODULE DebugStringsTrace --------------------------
EXTENDS DebugStrings, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Op(e) ==
  /\ Need(Enabled(S, e), "operation is not possible", e)
  /\ S' = Apply(S, e)
  /\ \A f \in Fields : /\ Need(e.obs[f].t = S'.val[f].t, "text of " \o f, S'.val[f])
                       /\ Need(e.obs[f].n = S'.val[f].n, "size of " \o f, S'.val[f])
                       /\ Need(e.obs[f].zero, "zero termination of " \o f, S'.val[f])
                       /\ Need(e.obs[f].cap >= S'.val[f].n /\ e.obs[f].cap >= S'.res[f], "capacity of " \o f, <<S'.val[f].n, S'.res[f]>>)
  /\ Need(e.indent = S'.indent, "indentation", S'.indent)
  /\ (e.op = "Enter") => LET v == IF e.on THEN Line(S, "Entering data " \o ToString(e.nr)) ELSE "" IN Need(e.entering = v, "statement of DoutEntering", v)
  /\ (e.line # "") => Need(e.line = Line(S', "data"), "statement", Line(S', "data"))
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
