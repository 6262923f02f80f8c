----------------------------- MODULE FatalTrace -----------------------------
(* Events: Inv and Res of operations; Out: text that was flushed to a stream, as lines; End: a thread begins to end the
   process; Exit: how the process ended. *)
EXTENDS Fatal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Norm(op) == [op EXCEPT !.fl = SetOf(op.fl)]
\* The text of a diagnostic is free; it is not one of our messages, which begin with a "t".
RECURSIVE Strip(_)
Strip(s) == IF s # "" /\ SubSeq(s, 1, 1) = " " THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
Unfinished(x) == Len(x) >= 13 /\ SubSeq(x, Len(x) - 12, Len(x)) = "<unfinished>\n"
Diag(x) == x = "\n" \/ x = "<no newline>\n" \/ Unfinished(x) \/ (Len(x) >= 9 /\ SubSeq(x, 1, 9) = "COREDUMP:" /\ LET y == Strip(SubSeq(x, 10, Len(x))) IN y = "" \/ SubSeq(y, 1, 1) # "t")
Broken == \E t \in Threads : Misused(S.thr[t], S.thr[t].cur) /\ S.thr[t].ph # "run"
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
Unlink(s) == IF Broken THEN SelectSeq(s, LAMBDA x : ~Diag(x)) ELSE s
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Explains(buf, lines) == IF Join(buf) = Join(Unlink(lines)) THEN TRUE ELSE Broken /\ IsPrefix(Join(buf), Join(lines))
TraceInit == S = Init0 /\ l = 1
Hidden == \/ \E t \in Threads : CanEffect(S, t) /\ S' = Effect(S, t) /\ UNCHANGED l
          \/ \E t \in Threads : CanClaim(S, t) /\ (S.owner = 0 \/ S.thr[t].ph # "broken") /\ S' = Claim(S, t) /\ UNCHANGED l
AllSaid == \A t \in Threads : S.thr[t].ph = "stuck" \/ S.thr[t].cur.op # "fatal" \/ ~Dies(S.thr[t], S.thr[t].cur) \/ t = S.owner
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Inv" -> LET op == Norm(e.op) IN CanInvoke(S, op.t, op) /\ S' = Invoke(S, op.t, op)
          [] e.e = "Res" -> CanReturn(S, e.t) /\ S' = Return(S, e.t)
          [] e.e = "Out" -> Explains(S.buf[e.s], e.lines) /\ S' = Deliver(S, e.s)
          \* A thread that ends the process is the owner; it can have waited until all other messages were there.
          [] e.e = "End" -> e.t = S.owner /\ e.st = S.kind /\ S.thr[e.t].ph = "ending" /\ S' = [S EXCEPT !.thr[e.t].ph = "ended"]
          [] e.e = "Waited" -> AllSaid /\ UNCHANGED S
          [] e.e = "Exit" -> /\ IF e.st = "ok" THEN \A t \in Threads : S.thr[t].ph = "idle" ELSE CanEnd(S) /\ S.kind = e.st
                             /\ S' = [S EXCEPT !.ended = e.st]
TraceNext == Step \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_vars
Furthest == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECT line " \o ToString(TLCGet(1)) \o " nothing that the threads may do explains this") /\ FALSE
=============================================================================
