--------------------------- MODULE InitThreadTrace ---------------------------
EXTENDS InitThread, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
\* Several threads print their lines in any order.
Sorted(op, got, want) == IF op.op = "many" THEN ToSet(got) = ToSet(want) /\ Len(got) = Len(want) ELSE got = want
Query(q, t) ==
  /\ Need(ToSet(q.on) = OnSet(S', t), "channels that are on in thread " \o ToString(t), OnSet(S', t))
  /\ Need(q.obj = ObjOn(S', t), "debug output is on in thread " \o ToString(t), ObjOn(S', t))
  /\ Need(q.margin = S'.th[t].margin, "margin of thread " \o ToString(t), S'.th[t].margin)
Op(e) ==
  LET op == e.op IN
  /\ Need(Enabled(S, op), "operation is not possible", e)
  \* Threads that start together without name each get their own id.
  /\ S' = (IF op.op = "many" /\ op.name = ""
           THEN [Apply(S, op) EXCEPT !.th = [x \in Threads |-> IF x \in ToSet(op.ts) THEN InitThread(S, x, op.mode, "", e.ids[CHOOSE i \in DOMAIN op.ts : op.ts[i] = x]).th[x] ELSE S.th[x]]]
           ELSE IF op.op = "start" THEN Apply(S, [op EXCEPT !.id = e.ids[1]])
           ELSE Apply(S, op))
  /\ Need(Sorted(op, e.lines, Lines(S', op)), "lines that are printed", Lines(S', op))
  /\ Need(ToSet(e.locks) \subseteq {S'.lock}, "lock that is held while printing", S'.lock)
  /\ Need(e.has = (S'.lock # "none"), "has_mutex()", S'.lock # "none")
  /\ Need(e.same, "get_ostream() returns the stream that was set", TRUE)
  /\ \A i \in DOMAIN e.q : Query(e.q[i], e.q[i].t)
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", e.st) /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
