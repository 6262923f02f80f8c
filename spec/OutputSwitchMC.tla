--------------------------- MODULE OutputSwitchMC ---------------------------
(***************************************************************************)
(* The algorithm of OstreamState, with its state mutex, statement by       *)
(* statement; every step has to be allowed by the contract.                *)
(***************************************************************************)
EXTENDS OutputSwitch, Json
CONSTANTS Depth, EmitScripts, Progs, Variant      \* Variant: "code", or a wrong algorithm that has to be found out.
VARIABLES C, hist, progs, pc, loc, sm, bad
vars == <<C, hist, progs, pc, loc, sm, bad>>
\* loc[t]: local variables: the stream and lock that are used, the lock that is replaced.  sm: holder of the state mutex, per object.
Say(t, n) == [op |-> "say", t |-> t, o |-> 0, n |-> n, cerr |-> FALSE, slow |-> 0]
Sw(t, s, k) == [op |-> "sw", t |-> t, o |-> 0, s |-> s, k |-> k]
Swo(t, s) == [op |-> "swo", t |-> t, o |-> 0, s |-> s]
Get(t) == [op |-> "get", t |-> t, o |-> 0]
Has(t) == [op |-> "has", t |-> t, o |-> 0]
App(t, s, n) == [op |-> "app", t |-> t, o |-> 0, s |-> s, k |-> s, n |-> n]
OnO(op, o) == [op EXCEPT !.o = o]
Start1 == 0 :> <<1, 1>>
Start2 == 0 :> <<1, 1>> @@ 1 :> <<2, 2>>
StartNone == 0 :> <<1, 0>>
ProgsA(t) == {<<Say(t, 1)>>, <<Say(t, 1), Say(t, 2)>>, <<Sw(t, 2, 2), Say(t, 1)>>, <<Sw(t, 2, 2), Sw(t, 1, 1)>>, <<Swo(t, 3), Say(t, 1)>>, <<Sw(t, 1, 1)>>, <<Sw(t, 3, 3), Get(t)>>, <<App(t, 1, 1)>>, <<Has(t)>>}
ProgsB(t) == {<<Say(t, 1), OnO(Say(t, 2), 1)>>, <<Sw(t, 2, 2)>>, <<OnO(Sw(t, 1, 1), 1)>>, <<[Say(t, 1) EXCEPT !.cerr = TRUE]>>, <<OnO(Swo(t, 1), 1), OnO(Get(t), 1)>>}
ProgsC(t) == {<<Has(t), Get(t)>> \o x : x \in {<<Say(t, 1), Sw(t, 1, 1), Has(t), Say(t, 2), Swo(t, 2), Get(t), Say(t, 3)>>, <<Swo(t, 2), Has(t), Get(t), Say(t, 1), [Say(t, 2) EXCEPT !.cerr = TRUE], Sw(t, 3, 2), Has(t), Get(t), Say(t, 3), Sw(t, 3, 2), Say(t, 4)>>}}
ProgsS(t) == {<<Say(t, 1)>>, <<Sw(t, 2, 2)>>, <<Sw(t, 1, 1), Say(t, 1)>>, <<Swo(t, 3)>>, <<Get(t)>>}
ProgsShort == [t \in Threads |-> ProgsS(t)]
ProgsAll == [t \in Threads |-> ProgsA(t)]
ProgsTwo == [t \in Threads |-> ProgsB(t)]
ProgsOne == [t \in Threads |-> ProgsC(t)]
Init == C = Init0 /\ hist = <<>> /\ progs = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> <<0, 0, 0>>] /\ sm = [o \in Objects |-> 0] /\ bad = FALSE
Begin == /\ hist = <<>>
         /\ \E p \in [Threads -> UNION {Progs[t] : t \in Threads}] :
              /\ \A t \in Threads : p[t] \in Progs[t]
              /\ progs' = p
              /\ hist' = <<[op |-> "par", progs |-> [i \in 1..Cardinality(Threads) |-> p[i]]]>>
         /\ UNCHANGED <<C, pc, loc, sm, bad>>
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
\* A step that the contract has to allow.
Must(guard, D) == C' = D /\ bad' = (bad \/ ~guard)
Keep(x) == UNCHANGED <<hist, progs, x>>
Invoke(t) == /\ hist # <<>> /\ pc[t] = "idle" /\ progs[t] # <<>>
             /\ LET op == Head(progs[t])
                IN /\ Must(CanInv(C, op), Inv(C, op))
                   /\ Goto(t, IF op.op = "app" THEN "want" ELSE "lock")
                   /\ loc' = [loc EXCEPT ![t] = IF op.op = "app" THEN <<op.s, op.k, 0>> ELSE <<0, 0, 0>>]
             /\ progs' = [progs EXCEPT ![t] = Tail(@)]
             /\ UNCHANGED <<hist, sm>>
O(t) == C.run[t].o
\* Lock the state mutex and read, or write, the pair.
Lock(t) == /\ pc[t] = "lock" /\ (sm[O(t)] = 0 \/ Variant = "nostate")
           /\ sm' = [sm EXCEPT ![O(t)] = t]
           /\ LET op == C.run[t]  p == C.cur[op.o]
              IN IF Switching(C, t)
                 THEN /\ Must(CanSwap(C, t), Swap(C, t))
                      /\ loc' = [loc EXCEPT ![t] = <<0, p[2], 0>>]
                      /\ Goto(t, IF p[2] = 0 THEN "unlock" ELSE IF Variant = "nowait" THEN "unlock" ELSE "want")
                 ELSE /\ UNCHANGED <<C, bad>>
                      /\ loc' = [loc EXCEPT ![t] = <<IF op.op = "say" /\ op.cerr THEN Cerr ELSE p[1], p[2], 0>>]
                      /\ Goto(t, IF op.op \in {"get", "has"} THEN "unlock" ELSE IF p[2] = 0 THEN "unlock" ELSE "want")
           /\ UNCHANGED <<hist, progs>>
WantStep(t) == pc[t] = "want" /\ Must(CanWant(C, t, loc[t][2]), Want(C, t, loc[t][2])) /\ Goto(t, "acq")
               /\ sm' = (IF Variant = "early" /\ C.run[t].op = "say" THEN [sm EXCEPT ![O(t)] = 0] ELSE sm) /\ Keep(loc)
AcqStep(t) == pc[t] = "acq" /\ C.holder[loc[t][2]] = 0 /\ Must(CanAcq(C, t, loc[t][2]), Acq(C, t, loc[t][2]))
              /\ Goto(t, IF Switching(C, t) THEN "rel" ELSE IF C.run[t].op = "app" \/ Variant = "early" THEN "write" ELSE "unlock") /\ Keep(<<sm, loc>>)
Unlock(t) == /\ pc[t] = "unlock"
             /\ sm' = [sm EXCEPT ![O(t)] = 0]
             /\ Goto(t, IF C.run[t].op = "say" THEN "write" ELSE "res")
             /\ Keep(<<C, loc, bad>>)
WriteStep(t) == /\ pc[t] \in {"write", "write2"}
                /\ LET x == Line(C.run[t]) IN Must(CanWrite(C, t, loc[t][1]), Write(C, t, IF pc[t] = "write" THEN SubSeq(x, 1, 3) ELSE SubSeq(x, 4, Len(x))))
                /\ Goto(t, IF pc[t] = "write" THEN "write2" ELSE IF loc[t][2] = 0 THEN "res" ELSE "rel") /\ Keep(<<sm, loc>>)
RelStep(t) == pc[t] = "rel" /\ Must(CanRel(C, t, loc[t][2]), Rel(C, t, loc[t][2])) /\ Goto(t, IF Switching(C, t) THEN "unlock" ELSE "res") /\ Keep(<<sm, loc>>)
ResStep(t) == /\ pc[t] = "res"
              /\ LET r == IF C.run[t].op = "has" THEN (IF loc[t][2] = 0 THEN 0 ELSE 1) ELSE loc[t][1]
                 IN Must(CanRes(C, t, r) /\ Released(Res(C, t)), Res(C, t))
              /\ Goto(t, "idle") /\ Keep(<<sm, loc>>)
Done == hist # <<>> /\ \A t \in Threads : pc[t] = "idle" /\ progs[t] = <<>>
Next == Begin \/ (Done /\ UNCHANGED vars) \/ \E t \in Threads : Invoke(t) \/ Lock(t) \/ WantStep(t) \/ AcqStep(t) \/ Unlock(t) \/ WriteStep(t) \/ RelStep(t) \/ ResStep(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EmitC == (EmitScripts /\ Len(hist') # Len(hist)) => PrintT("SCRIPT " \o ToJson(hist'))
View == <<C, progs, pc, loc, sm, bad>>
Allowed == ~bad
NeverStuck == Done \/ ENABLED Next
Ends == <>Done
\* Whole lines: what was said was said completely.
Whole == \A t \in Threads : C.said[t] => IF C.run[t] = None THEN TRUE ELSE C.text[t] = Line(C.run[t])

\* Random programs.
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
RECURSIVE Prog(_, _, _)
Prog(t, i, len) ==
  LET r == Pick(1..20)  o == Pick(Objects)  s == Pick(1..4)
      op == CASE r <= 11 -> [op |-> "say", t |-> t, o |-> o, n |-> 10 * Pick(0..99) + i, cerr |-> Pick(1..8) = 1, slow |-> Pick({0, 0, 1, 20, 200})]
              [] r <= 15 -> [op |-> "sw", t |-> t, o |-> o, s |-> s, k |-> s]
              [] r <= 16 -> [op |-> "swo", t |-> t, o |-> o, s |-> s]
              [] r <= 18 -> [op |-> "get", t |-> t, o |-> o]
              [] r <= 19 -> [op |-> "has", t |-> t, o |-> o]
              [] OTHER -> [op |-> "app", t |-> t, o |-> o, s |-> s, k |-> s, n |-> i]
  IN IF i > len THEN <<>> ELSE <<op>> \o Prog(t, i + 1, len)
SimNext == Len(hist) < Depth /\ hist' = Append(hist, [op |-> "par", progs |-> [i \in 1..Cardinality(Threads) |-> Prog(i, 1, Pick(1..6))]])
           /\ UNCHANGED <<C, progs, pc, loc, sm, bad>>
SimSpec == Init /\ [][SimNext]_vars
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
