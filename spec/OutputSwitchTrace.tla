-------------------------- MODULE OutputSwitchTrace --------------------------
EXTENDS OutputSwitch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES C, l
vars == <<C, l>>
StartDef1 == 0 :> <<1, 1>>
StartDef2 == 0 :> <<1, 1>> @@ 1 :> <<2, 2>>
StartDefNone == 0 :> <<1, 0>>
TraceInit == C = Init0 /\ l = 1
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> C' = Init0
          [] e.e = "Inv" -> CanInv(C, e.op) /\ C' = Inv(C, e.op)
          [] e.e = "Want" -> CanWant(C, e.t, e.k) /\ C' = Want(C, e.t, e.k)
          [] e.e = "Acq" -> CanAcq(C, e.t, e.k) /\ C' = Acq(C, e.t, e.k)
          [] e.e = "Busy" -> C.want[e.t] = e.k /\ C' = [C EXCEPT !.want[e.t] = 0]       \* try_lock() failed.
          [] e.e = "W" -> CanWrite(C, e.t, e.s) /\ C' = Write(C, e.t, e.x)
          [] e.e = "Rel" -> CanRel(C, e.t, e.k) /\ C' = Rel(C, e.t, e.k)
          [] e.e = "Res" -> CanRes(C, e.t, e.r) /\ C' = Res(C, e.t) /\ Released(C')
          [] e.e = "Exit" -> e.st = "ok" /\ (\A t \in Threads : C.run[t] = None) /\ UNCHANGED C
Hidden == \E t \in Threads : CanSwap(C, t) /\ C' = Swap(C, t) /\ UNCHANGED l
TraceNext == Step \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_vars
Furthest == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECT line " \o ToString(TLCGet(1)) \o " not allowed, whenever the switches took effect") /\ FALSE
=============================================================================
