---------------------------- MODULE AttachGdbMC ----------------------------
EXTENDS AttachGdb, Json
CONSTANTS Depth, EmitScripts, Menu
VARIABLES conf, on, ended, out, hist
vars == <<conf, on, ended, out, hist>>
Pid == 12345
None == [set |-> FALSE, gdb |-> [v |-> "", n |-> 0], xterm |-> [v |-> "", w |-> "", n |-> 0, cmd |-> FALSE]]
Gdbs(n) == {[v |-> v, n |-> n] : v \in {"./gdb", "./gdb -q", "env A=b ./gdb"}}
T(v, w, n) == [v |-> v, w |-> w, n |-> n, cmd |-> TRUE]
Terms(n) == {T("", "", n), T("./term ", "", n), T("sh -c '", "'", n), T("./term -T \"the debugger\" -e ", "", n)}
Confs ==
  IF Menu = "plain" THEN {[set |-> TRUE, gdb |-> g, xterm |-> t] : g \in Gdbs(0), t \in Terms(0)}
  ELSE IF Menu = "long" THEN {[set |-> TRUE, gdb |-> [v |-> "./gdb ", n |-> n], xterm |-> t] : n \in 195..225 \cup {1, 100, 250, 256, 500, 3000}, t \in {T("", "", 0), T("./term ", " ", 100)}}
       \cup {[set |-> TRUE, gdb |-> [v |-> "./gdb", n |-> 0], xterm |-> T("./term ", " ", n)] : n \in 445..475 \cup {512, 4000}}
  ELSE {None, [set |-> TRUE, gdb |-> [v |-> "", n |-> 0], xterm |-> T("", "", 0)], [set |-> TRUE, gdb |-> [v |-> "./gdb", n |-> 0], xterm |-> [v |-> "true", w |-> "", n |-> 0, cmd |-> FALSE]]}
Init == conf \in Confs /\ on = TRUE /\ ended = "" /\ out = <<>> /\ hist = <<[op |-> "conf", cfg |-> conf]>>
Hows == IF NoTerm(conf) THEN {[how |-> "exit", code |-> 0]}
        ELSE IF Menu = "plain" THEN {[how |-> "attach", code |-> 0], [how |-> "slow", code |-> 0], [how |-> "exit", code |-> 1], [how |-> "exit", code |-> 77], [how |-> "exit", code |-> 255]}
        ELSE {[how |-> "attach", code |-> 0]}
Attach == \E h \in Hows, by \in {"main", "thread"} :
  LET op == [op |-> "attach", how |-> h.how, code |-> h.code, by |-> by]
      \* Output of other threads is off, until it is turned on.
      e == Expect(conf, op, on, Pid)
  IN /\ ended' = e.end /\ out' = out \o e.lines /\ hist' = Append(hist, op) /\ UNCHANGED <<conf, on>>
Switch == on' = ~on /\ hist' = Append(hist, [op |-> "switch"]) /\ UNCHANGED <<conf, ended, out>>
Next == ended = "" /\ Len(hist) <= Depth /\ (Attach \/ Switch)
Spec == Init /\ [][Next]_vars
SimSpec == Spec
View == vars
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == TRUE
\* The program only continues when a debugger did attach to it, and then it always does.
Continues == \A i \in DOMAIN hist : hist[i].op = "attach" => (i < Len(hist) \/ ended = "" => hist[i].how # "exit")
\* Nothing is printed while output is off, except the reason why the program ends.
Silent == (Len(hist) > 1 /\ hist[2].op = "switch" /\ \A i \in 3..Len(hist) : hist[i].op # "switch") => Len(out) = (IF ended = "" THEN 0 ELSE 1)
=============================================================================
