---------------------------- MODULE RcFileTrace ----------------------------
EXTENDS RcFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Width == 12
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(s \o " ", n)
LabelsDef == [c \in Channels |-> Pad(c, Width)]
VARIABLES S, l, pend    \* pend: what must still be printed
vars == <<S, l, pend>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
OnSet(s) == {c \in Channels : s.ch[c]}
TraceInit == S = Init0 /\ l = 1 /\ pend = <<>>
IsFatal(t) == Len(t) >= 5 /\ SubSeq(t, 1, 5) = "FATAL"
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0 /\ pend' = <<>>
          [] e.e = "Op" -> S' = Apply(S, e.op) /\ pend' = (IF e.op.op = "read" THEN S'.out ELSE <<>>)
          [] e.e = "Line" ->
               IF pend = <<>> THEN Need(S.dead # "" /\ IsFatal(e.text), "line that should not be printed", e.text) /\ UNCHANGED <<S, pend>>
               ELSE Need(e.text = Head(pend), "line that should be printed now", Head(pend)) /\ pend' = Tail(pend) /\ UNCHANGED S
          [] e.e = "Done" ->
               /\ Need(S.dead = "", "reading should end the program", S.dead)
               /\ Need(pend = <<>>, "lines that should have been printed", pend)
               /\ Need(ToSet(e.on) = OnSet(S), "channels that are on", OnSet(S))
               /\ Need(e.gdb = S.gdb, "gdb", S.gdb)
               /\ Need(e.xterm = S.xterm, "xterm", S.xterm)
               /\ Need(e.handled = S.handled, "keywords passed to unknown_keyword", S.handled)
               /\ UNCHANGED <<S, pend>>
          [] e.e = "Exit" -> Need(pend = <<>>, "lines that should have been printed", pend) /\
                             Need(e.st = (IF S.dead = "" THEN "ok" ELSE "exit180"), "end of the program", S.dead) /\ UNCHANGED <<S, pend>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
