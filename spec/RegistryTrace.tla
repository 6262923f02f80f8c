---------------------------- MODULE RegistryTrace ----------------------------
(* Operations of one thread at a time are events of their own.  Operations of threads that run at the same time have an
   event when they begin and one when they end; they take effect at some moment in between (the action Effect). *)
EXTENDS Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, pend     \* pend: thread -> [op, done, lines, found, seen] of running operations
vars == <<S, l, pend>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Labels(s) == [i \in DOMAIN s |-> s[i]]
Op(e) ==
  LET op == e.op IN
  /\ Need(Enabled(S, op), "operation is not possible", e)
  /\ S' = Apply(S, op)
  /\ Need(e.lines = Lines(S', op), "lines that are printed", Lines(S', op))
  /\ Need(e.found = Found(S', op), "number of the channel that is found", Found(S', op))
  /\ Need(e.seen = Seen(S', op.t), "channels that are visited", Seen(S', op.t))
  /\ Need({x.k : x \in {e.labels[i] : i \in DOMAIN e.labels}} = DOMAIN S'.chans, "channels of the script", DOMAIN S'.chans)
  /\ \A i \in DOMAIN e.labels : Need(e.labels[i].label = Label(S', e.labels[i].k), "label of channel " \o ToString(e.labels[i].k), Label(S', e.labels[i].k))
  /\ Need(e.fatal = Pad("FATAL", S'.width) \o Pad("COREDUMP", S'.width), "labels of the fatal channels", S'.width)
  /\ Need(e.objs = [i \in 1..S'.objs |-> 1], "times that each debug object is visited", S'.objs)
Unseen == [i \in {} |-> i]
\* The results of an operation that takes effect in state s (and is applied to it).
Result(s, op) == [op |-> op, done |-> TRUE, lines |-> Lines(s, op), found |-> Found(s, op), seen |-> Seen(s, op.t)]
Effect ==
  \E t \in DOMAIN pend :
    /\ ~pend[t].done
    /\ LET T == Apply(S, pend[t].op) IN S' = T /\ pend' = [pend EXCEPT ![t] = Result(T, pend[t].op)]
    /\ UNCHANGED l
TraceInit == S = Init0 /\ l = 1 /\ pend = Unseen
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0 /\ pend' = Unseen
          [] e.e = "Op" -> Op(e) /\ UNCHANGED pend
          [] e.e = "Inv" -> pend' = (e.op.t :> [op |-> e.op, done |-> FALSE]) @@ pend /\ UNCHANGED S
          [] e.e = "Res" -> /\ pend[e.t].done
                            /\ e.lines = pend[e.t].lines
                            /\ e.found = pend[e.t].found
                            /\ (pend[e.t].op.op = "look" => e.seen = pend[e.t].seen)
                            /\ pend' = [t \in DOMAIN pend \ {e.t} |-> pend[t]]
                            /\ UNCHANGED S
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED <<S, pend>>
TraceNext == Step \/ Effect
TraceSpec == TraceInit /\ [][TraceNext]_vars
Furthest == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECT line " \o ToString(TLCGet(1)) \o " no order of the running operations explains this") /\ FALSE
=============================================================================
