---------------------------- MODULE AutoPtrTrace ----------------------------
EXTENDS AutoPtr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Op(e) ==
  /\ Need(Enabled(S, e), "operation is not possible", e)
  /\ S' = Apply(S, e)
  /\ Need(Obs(S') = e.obs, "state of the pointers and objects", Obs(S'))
  \* An array is destroyed by delete[], anything else by delete, and always as what it is.
  /\ Need(e.wrong = 0, "objects that were destroyed in the wrong way", 0)
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
