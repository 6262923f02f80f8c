---------------------------- MODULE SourceLocMC ----------------------------
EXTENDS SourceLoc, Json
CONSTANTS Depth, EmitScripts, KindsUsed, BlocksUsed, MaxOpen
VARIABLES S, hist
vars == <<S, hist>>
Files == <<"/verif-src/a.cpp", "rel/b.h", "/verif-src/sub/c.cpp", "/verif-src/a.h">>
Place(n) == [file |-> Files[1 + (n % 2)], line |-> 100 * (1 + n)]
Ops == {[op |-> "fn", k |-> k, inl |-> i] : k \in KindsUsed, i \in BOOLEAN} \cup {[op |-> "blk", k |-> k] : k \in BlocksUsed}
       \cup {[op |-> "end"]} \cup {[op |-> "again", i |-> i] : i \in DOMAIN S.fns}
       \cup {[op |-> o, file |-> Place(Len(S.marks)).file, line |-> Place(Len(S.marks)).line] : o \in {"mark", "ret"}}
Usable(op) == Can(S, op) /\ (op.op \in {"fn", "blk"} => Len(S.open) < MaxOpen)
Do(op) == /\ Usable(op) /\ Len(hist) < Depth
          /\ S' = Apply(S, op) /\ hist' = Append(hist, op)
Init == S = Empty /\ hist = <<>>
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == <<S, hist>>
\* A script is only of use when there is something to look up.
EmitC == EmitScripts /\ S'.marks # <<>> => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == EmitScripts /\ Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RandomPlace == [file |-> Files[RandomElement(Now(1..4))], line |-> RandomElement(Now({1, 2, 127, 128, 255, 256, 16384, 65536} \cup 1..3000))]
RandomOp ==
  LET k == RandomElement(Now({"fn", "fn", "mark", "mark2", "ret", "blk", "end", "again"}))
      p == RandomPlace
  IN IF S.open = <<>> THEN [op |-> "fn", k |-> RandomElement(Now(KindsUsed \ {"l"})), inl |-> FALSE]
     ELSE CASE k = "fn" -> [op |-> "fn", k |-> RandomElement(Now(KindsUsed)), inl |-> RandomElement(Now({1, 2, 3})) # 1]
            [] k = "blk" -> [op |-> "blk", k |-> RandomElement(Now(BlocksUsed))]
            [] k = "end" -> [op |-> "end"]
            [] k = "again" /\ S.fns # <<>> -> [op |-> "again", i |-> RandomElement(Now(DOMAIN S.fns))]
            [] k = "ret" -> [op |-> "ret", file |-> p.file, line |-> p.line]
            [] OTHER -> [op |-> "mark", file |-> p.file, line |-> p.line]
Fix(op) == IF Usable(op) THEN op ELSE LET p == RandomPlace IN [op |-> "mark", file |-> p.file, line |-> p.line]
SimNext == IF Len(hist) < Depth THEN \E op \in {RandomOp} : Do(Fix(op)) ELSE FALSE
SimSpec == Init /\ [][SimNext]_vars
\* All code is part of some function of the object file, that was not inlined itself.
HasPlace == \A f \in DOMAIN S.fns : Phys(S, f) # {} /\ \A p \in Phys(S, f) : ~S.fns[p].inl
\* A function that was not inlined is only itself.
Itself == \A f \in DOMAIN S.fns : ~S.fns[f].inl => Phys(S, f) = {f}
\* No two functions have a name in common, neither is the name of one that of a variant of another.
Distinct == \A f, g \in DOMAIN S.fns : f # g => \A n \in Names(S, f, "V1") : ~IsSymbol(S, g, "V1", n)
Named == \A f \in DOMAIN S.fns : Names(S, f, "V1") # {}
=============================================================================
