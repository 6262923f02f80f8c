------------------------------ MODULE GlobTrace ------------------------------
EXTENDS Glob, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l       \* S: the labels in use.
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Op(e) ==
  LET lab == S \o e.ls
      want == [i \in DOMAIN lab |-> Match(e.m, lab[i])] IN
  /\ UNCHANGED S
  /\ \A i \in DOMAIN lab : Need(e.direct[i] = want[i], "match of this mask and label", <<e.m, lab[i], want[i]>>)
  \* The channels that an rcfile turns on with this mask (an empty mask or label cannot be written there).
  /\ (e.rc # <<>>) => \A i \in DOMAIN lab : Need(lab[i] = "" \/ e.rc[i] = want[i], "channel with this label selected by this mask", <<e.m, lab[i], want[i]>>)
TraceInit == S = <<>> /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = e.cfg.labels
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
