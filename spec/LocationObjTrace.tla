-------------------------- MODULE LocationObjTrace --------------------------
EXTENDS LocationObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Op(e) ==
  /\ Need(Enabled(S, e), "operation is not possible", e)
  /\ S' = Apply(S, e)
  /\ Need(e.res = Result(S, e), "result of the operation", Result(S, e))
  /\ \A i \in Slots : Need(e.obs[i] = Obs(S', e.t)[i], "slot " \o ToString(i) \o " is " \o ToString(e.obs[i]) \o " but should be", Obs(S', e.t)[i])
  \* Paths that nobody owns anymore have been freed.
  /\ Need(e.live <= Live(S'), "number of paths that are still allocated: " \o ToString(e.live) \o " but should be", Live(S'))
Reset(e) == S' = Init0
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> Reset(e)
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
