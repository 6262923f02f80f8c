-------------------------- MODULE SourceLocTrace --------------------------
EXTENDS SourceLoc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, env, seen
vars == <<l, S, env, seen>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Row(e) ==
  IF e.w = "s" \* The start of a function.
  THEN LET fs == {f \in DOMAIN S.fns : Id(S, f) = e.id} IN
       /\ Need(\E f \in fs : \E g \in DOMAIN S.fns : f \in Phys(S, g) /\ Function(S, g, env, e.name), "function that starts here", [f \in fs |-> Names(S, f, env.ns)])
       /\ Need(\E f \in fs : Symbol(S, f, env, e.phys), "symbol at this address", [f \in fs |-> Names(S, f, env.ns)])
       /\ Need(e.obj, "object file", "the one that contains the function")
  ELSE LET m == S.marks[e.id]
           at == Source(m, env)
       IN /\ Need(Function(S, m.f, env, e.name), "function", IF env.debug = "full" THEN Names(S, m.f, env.ns) ELSE {Names(S, p, env.ns) : p \in Phys(S, m.f)})
          /\ Need(Symbol(S, m.f, env, e.phys), "symbol at this address", {Names(S, p, env.ns) : p \in Phys(S, m.f)})
          /\ Need(e.known = at.known /\ e.file = at.file /\ e.line = at.line, "source file and line", at)
          /\ Need(e.obj, "object file", "the one that contains the code")
          /\ Need(m.ret = (e.w = "r"), "kind of the lookup", m)
TraceInit == l = 1 /\ S = Empty /\ env = [ns |-> "", debug |-> ""] /\ seen = {}
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Empty /\ env' = [ns |-> e.cfg.ns, debug |-> e.cfg.debug] /\ seen' = {}
          [] e.e = "Op" -> S' = Apply(S, e) /\ UNCHANGED <<env, seen>>
          [] e.e = "Row" -> Row(e) /\ seen' = (IF e.w = "s" THEN seen ELSE seen \cup {e.id}) /\ UNCHANGED <<S, env>>
          [] e.e = "Exit" -> /\ Need(e.st = "ok", "end of the program", "ok")
                             /\ LET must == {i \in DOMAIN S.marks : S.marks[i].ret => (S.marks[i].run /\ Runs(S, S.marks[i].f))}
                                IN Need(must = seen, "code that was looked up", must)
                             /\ UNCHANGED <<S, env, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
