-------------------------- MODULE ObjectFilesTrace --------------------------
EXTENDS ObjectFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)

Looks(T, rs) == \A k \in DOMAIN rs : Need(Right(T, rs[k]), "lookup of the address in " \o rs[k].l \o " gives " \o ToString(rs[k]) \o ", loaded are", Loaded(T))
\* A thread that has an object open itself, or knows that it is always loaded, finds it; everything it opens and closes succeeds.
Step(e) ==
  CASE e.op = "look" -> Need(Right([Init0 EXCEPT !.cnt[e.l] = 1], e.r[1]), "thread " \o ToString(e.t) \o " has it open, but the lookup of " \o e.l \o " gives", e.r[1])
    [] OTHER -> Need(e.res, "thread " \o ToString(e.t) \o ": failed", e)
Op(e) ==
  /\ Need(Enabled(S, e), "operation is not possible", e)
  /\ S' = Apply(S, e)
  /\ Need(e.res = Result(S, e), "result of the operation", Result(S, e))
  /\ Looks(S', e.r)
  \* At most one file is kept open per loaded object; those of unloaded objects are closed.
  /\ Need(e.fds <= Cardinality(Loaded(S')), "number of files that are kept open: " \o ToString(e.fds) \o ", loaded are", Loaded(S'))
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Step" -> Step(e) /\ UNCHANGED S
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
