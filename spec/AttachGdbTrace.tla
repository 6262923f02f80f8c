-------------------------- MODULE AttachGdbTrace --------------------------
EXTENDS AttachGdb, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, on, todo, final, seen
vars == <<l, conf, on, todo, final, seen>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
TraceInit == l = 1 /\ conf = <<>> /\ on = FALSE /\ todo = <<>> /\ final = "ok" /\ seen = <<>>
Done(e) ==
  /\ Need(todo = <<>>, "missing output", todo)
  /\ Need(final = "ok", "attach_gdb returned", final)
  /\ Need(e.args = <<"-n", "-x", "gdb.cmds", "/proc/" \o ToString(e.pid) \o "/exe", ToString(e.pid)>>, "arguments of the debugger", e.pid)
  /\ Need(e.cmds = <<"b *HERE", "set *(int*)&libcwd_attach_gdb_hook=0", "c">>, "commands for the debugger", "")
  /\ Need(e.on = on, "debug output is on", on)
  /\ Need(~e.early, "attach_gdb did not wait", "")
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> conf' = e.cfg /\ on' = TRUE /\ todo' = <<>> /\ final' = "ok" /\ seen' = <<>>
          [] e.e = "Switch" -> on' = ~on /\ UNCHANGED <<conf, todo, final, seen>>
          [] e.e = "Attach" -> LET x == Expect(conf, e, on, e.pid) IN
               todo' = x.lines /\ final' = (IF x.end = "" THEN "ok" ELSE x.end) /\ UNCHANGED <<conf, on, seen>>
          [] e.e = "Line" -> /\ Need(todo # <<>>, "output", "nothing")
                             \* Of the last words only the start matters.
                             /\ Need(IF final = "ok" \/ Len(todo) > 1 THEN e.text = todo[1] ELSE StartsWith(e.text, todo[1]), "output", todo[1])
                             /\ todo' = Tail(todo) /\ UNCHANGED <<conf, on, final, seen>>
          [] e.e = "Done" -> Done(e) /\ UNCHANGED <<conf, on, todo, final, seen>>
          [] e.e = "Exit" -> Need(e.st = final, "end of the program", final) /\ Need(todo = <<>>, "missing output", todo) /\ UNCHANGED <<conf, on, todo, final, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
