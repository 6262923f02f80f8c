----------------------------- MODULE AutoPtrMC -----------------------------
EXTENDS AutoPtr, Json
CONSTANTS Depth, MaxObjs, EmitScripts
VARIABLES S, hist
vars == <<S, hist>>

Last(s) == s[Len(s)]
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op) /\ hist' = Append(hist, op)

New == \E i \in Ptrs : Len(S.objs) < MaxObjs /\ Do([op |-> "new", i |-> i])
Null == \E i \in Ptrs : Do([op |-> "null", i |-> i])
Adopt == \E i \in Ptrs : \E o \in DOMAIN S.objs : Do([op |-> "adopt", i |-> i, o |-> o])
Delete == \E o \in DOMAIN S.objs : Do([op |-> "delete", i |-> 1, o |-> o])
Copy == \E i, j \in Ptrs : Do([op |-> "copy", i |-> i, j |-> j])
Assign == \E i, j \in Ptrs : Do([op |-> "assign", i |-> i, j |-> j])
Reset == \E i \in Ptrs : Do([op |-> "reset", i |-> i])
Release == \E i \in Ptrs : Do([op |-> "release", i |-> i])
Lock == \E i \in Ptrs : Do([op |-> "lock", i |-> i])
Unlock == \E i \in Ptrs : Do([op |-> "unlock", i |-> i])
Destroy == \E i \in Ptrs : Do([op |-> "destroy", i |-> i])
Next == New \/ Null \/ Adopt \/ Delete \/ Copy \/ Assign \/ Reset \/ Release \/ Lock \/ Unlock \/ Destroy
Spec == Init /\ [][Next]_vars

\* Random scripts.
RandomOp(n) ==
  LET i == RandomElement(Ptrs)  j == RandomElement(Ptrs)  r == RandomElement(1..24)
  IN CASE r <= 4 -> [op |-> "new", i |-> i]
       [] r <= 5 -> [op |-> "null", i |-> i]
       [] r <= 6 -> [op |-> "adopt", i |-> i, o |-> RandomElement(1..(Len(S.objs) + 1))]
       [] r <= 7 -> [op |-> "delete", i |-> i, o |-> RandomElement(1..(Len(S.objs) + 1))]
       [] r <= 11 -> [op |-> "copy", i |-> i, j |-> j]
       [] r <= 16 -> [op |-> "assign", i |-> i, j |-> j]
       [] r <= 17 -> [op |-> "reset", i |-> i]
       [] r <= 18 -> [op |-> "release", i |-> i]
       [] r <= 20 -> [op |-> "lock", i |-> i]
       [] r <= 21 -> [op |-> "unlock", i |-> i]
       [] OTHER -> [op |-> "destroy", i |-> i]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

View == S
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

Owners(s, o) == {i \in Ptrs : s.p[i].up /\ s.p[i].own /\ s.p[i].ptr = o}
OneOwner == \A o \in DOMAIN S.objs : Cardinality(Owners(S, o)) <= 1
OnceAtMost == \A o \in DOMAIN S.objs : S.objs[o].del <= 1
\* No leak and no dangling owner: a live object is owned, or the user has it.
Accounted == \A o \in DOMAIN S.objs : Alive(S, o) <=> (Owners(S, o) # {} \/ S.objs[o].raw)
OwnNothing == \A i \in Ptrs : S.p[i].ptr = 0 => ~S.p[i].own
\* A locked owner only loses its object by an operation on itself.
LockedKeeps == [][\A i \in Ptrs : (S.p[i].own /\ S.p[i].lock /\ hist' # hist /\ Last(hist').i # i) => S'.p[i] = S.p[i]]_vars
\* Copies keep pointing to the same object.
KeepsPointing == [][\A i \in Ptrs : (S.p[i].up /\ hist' # hist /\ Last(hist').i # i) => S'.p[i].ptr = S.p[i].ptr /\ S'.p[i].up]_vars
SelfAssign == [][(hist' # hist /\ Last(hist').op = "assign" /\ Last(hist').i = Last(hist').j) => S' = S]_vars
\* Only the owner of an object destroys it.
OwnerDestroys == [][\A o \in DOMAIN S.objs : (Alive(S, o) /\ ~Alive(S', o)) =>
                      (S.objs[o].raw /\ Last(hist').op = "delete") \/
                      (Owners(S, o) = {Last(hist').i} /\ Last(hist').op \in {"assign", "reset", "destroy"})]_vars
=============================================================================
