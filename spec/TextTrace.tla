------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Op(e) ==
  CASE e.op \in {"char", "buf"} -> /\ S' = Apply(S, e)
                                   /\ Need(e.out = Buf(e.b), "text of these bytes", Buf(e.b))
                                   /\ Need(e.all = S', "everything written so far", S')
                                   /\ Need(e.bad = 0, "state of the stream", 0)
    [] e.op = "errno" -> /\ UNCHANGED S
                         /\ \A i \in DOMAIN e.n : Need(e.name[i] \in ErrorNames(e.n[i]), "name of this error number", <<e.n[i], ErrorNames(e.n[i])>>)
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
