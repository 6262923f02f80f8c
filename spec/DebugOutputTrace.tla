-------------------------- MODULE DebugOutputTrace --------------------------
(***************************************************************************)
(* Is a trace recorded from the implementation a behaviour of DebugOutput? *)
(* The trace is a concatenation of runs, each starting with a Reset event  *)
(* and ending with an Exit event.                                          *)
(***************************************************************************)
EXTENDS DebugOutput, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VisibleDef == <<"AAA", "BBBBB", "DEBUG", "ELFUTILS", "LONGLABEL12", "NOTICE", "OFF", "SYSTEM", "WARNING">>

VARIABLES S, l, locks
vars == <<S, l, locks>>

SetOf(q) == {q[i] : i \in DOMAIN q}
OpOf(e) == IF "fl" \in DOMAIN e THEN [e EXCEPT !.fl = SetOf(@)] ELSE e

Has(e, f) == f \in DOMAIN e
On(st, out) == Render([i \in DOMAIN SelectSeq(out, LAMBDA x : x.st = st) |-> SelectSeq(out, LAMBDA x : x.st = st)[i].tk])
Count(out, k) == Len(SelectSeq(out, LAMBDA x : x.tk.k = k))

\* What the implementation must have shown for operation e, applied in state S, with result r.
Expected(e, r) ==
  [s0 |-> On("s0", r.out), s1 |-> On("s1", r.out), cerr |-> On("cerr", r.out)]

Observed(e) == [s0 |-> e.s0, s1 |-> e.s1, cerr |-> e.ce]

QueryOk(e) == e.op # "query" \/
  LET f == DObj(S, e.t, e.o).fmt
  IN /\ e.q.margin = f.margin /\ e.q.marker = f.marker /\ e.q.con = f.con /\ e.q.coff = f.coff /\ e.q.indent = f.indent
     /\ e.q.on = (DObj(S, e.t, e.o).off = -1)
     /\ e.q.af = (S.af[e.o] > 0)
     /\ \A c \in Channels : (c \in SetOf(e.q.chans)) = (S.th[e.t].chan[c] < 0)

Statement(e) == e.op \in {"B", "X", "C", "F", "D"}
Kind(e) == IF e.op = "D" THEN e.k ELSE e.op

\* Report what was expected when a line of the trace is not accepted.
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)

Reset(e) == S' = Init0 /\ locks' = e.cfg.lock

Op(e) ==
  LET op == OpOf(e)
      r == Apply(S, op)
  IN /\ Need(Enabled(S, op), "operation is not possible", op.op)
     /\ Need(r.s.dead = "no", "should have ended the program", r.s.dead)
     /\ Need(Statement(e) => e.on = BeginOn(S, [op EXCEPT !.op = Kind(e)]), "data evaluated", ~e.on)
     /\ Need(Observed(e) = Expected(e, r), "output", Expected(e, r))
     /\ Need(e.rd = Count(r.out, "ret"), "lines read from cin", Count(r.out, "ret"))
     /\ Need(locks => e.un = 0, "writes without holding the lock", 0)
     /\ Need(locks => e.free, "lock is free", TRUE)
     /\ Need(locks => e.sec <= Count(r.out, "lock"), "number of times that the lock was needed", Count(r.out, "lock"))
     /\ Need(QueryOk(e), "state", [fmt |-> DObj(S, e.t, IF "o" \in DOMAIN e THEN e.o ELSE 0).fmt, chan |-> S.th[e.t].chan])
     /\ S' = r.s /\ UNCHANGED locks

\* The last operation, if it did not return; then how the program ended.
LastOp(e) ==
  LET op == OpOf(e)
      r == Apply(S, op)
  IN /\ Need(Enabled(S, op), "operation is not possible", op.op)
     /\ Need(r.s.dead # "no", "should have returned", op.op)
     /\ S' = r.s /\ locks' = locks
     /\ Need(r.s.dead # "misuse" => Observed(e) = Expected(e, r), "output", Expected(e, r))
     \* Misuse that is detected by the macros is explained.
     /\ Need((r.s.dead = "misuse" /\ op.op \in {"C", "F", "D", "popm", "popk", "con"}) => (e.s0 \o e.ce) # "", "a diagnostic message", "")

Exit(e) == /\ Need(e.st = (CASE S.dead = "no" -> "ok" [] S.dead = "misuse" -> "sig6" [] OTHER -> S.dead), "end of the program", S.dead)
           /\ UNCHANGED <<S, locks>>

TraceInit == S = Init0 /\ l = 1 /\ locks = FALSE
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> Reset(e)
          [] e.e = "Op" -> Op(e)
          [] e.e = "Died" -> LastOp(e)
          [] e.e = "Exit" -> Exit(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
