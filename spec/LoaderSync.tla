----------------------------- MODULE LoaderSync -----------------------------
(***************************************************************************)
(* How the wrappers of dlopen and dlclose keep the registry of object      *)
(* files in line with what the loader has, step by step.  The real call    *)
(* and the update of the registry are separate steps, between which other  *)
(* threads do theirs; an object is loaded at any address that is free.     *)
(* Variants of the algorithm that have to be found wrong:                  *)
(*  "refcount": count the calls per object, and unregister it at the last; *)
(*  "stale": never look whether something else is loaded at the address;   *)
(*  "late": find out what is loaded first, and then take the lock.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Objs, Addrs, MaxOpen, Startup, Variant

VARIABLES at,     \* the loader: the address of an object (0: not loaded)
          ref,    \* the loader: how many handles are open
          reg,    \* the registry: the object at every address ("": none)
          cnt,    \* "refcount": calls counted per object (0: no record)
          pc,     \* per thread: "idle", "opened", "closed", "sync"
          arg,    \* per thread: the object
          have,   \* per thread and object: the handles it has
          snap,   \* per thread: what it found loaded ("late")
          left    \* number of calls that may still be made
vars == <<at, ref, reg, cnt, pc, arg, have, snap, left>>

O1 == CHOOSE o \in Objs : TRUE
Map(a) == [x \in Addrs |-> IF \E o \in Objs : a[o] = x THEN CHOOSE o \in Objs : a[o] = x ELSE ""]
Init ==
  /\ at \in [Objs -> Addrs \cup {0}] /\ \A o \in Objs : (at[o] # 0) = (o \in Startup)
  /\ \A o, p \in Objs : o # p /\ at[o] # 0 => at[o] # at[p]
  /\ ref = [o \in Objs |-> 0] /\ reg = Map(at) /\ cnt = [o \in Objs |-> 0]
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> O1] /\ have = [t \in Threads |-> [o \in Objs |-> 0]]
  /\ snap = [t \in Threads |-> reg] /\ left = MaxOpen

FreeAddr == Addrs \ {at[o] : o \in Objs}
RealOpen(t, o) ==
  /\ pc[t] = "idle" /\ left > 0
  /\ \E a \in IF at[o] # 0 THEN {at[o]} ELSE FreeAddr : at' = [at EXCEPT ![o] = a]
  /\ ref' = [ref EXCEPT ![o] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "opened"] /\ arg' = [arg EXCEPT ![t] = o]
  /\ left' = left - 1 /\ UNCHANGED <<reg, cnt, have, snap>>
RealClose(t, o) ==
  /\ pc[t] = "idle" /\ have[t][o] > 0
  /\ ref' = [ref EXCEPT ![o] = @ - 1]
  /\ at' = [at EXCEPT ![o] = IF ref[o] = 1 /\ o \notin Startup THEN 0 ELSE @]
  /\ have' = [have EXCEPT ![t][o] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "closed"] /\ arg' = [arg EXCEPT ![t] = o]
  /\ UNCHANGED <<reg, cnt, snap, left>>
Return(t) == IF pc[t] \in {"opened"} THEN have' = [have EXCEPT ![t][arg[t]] = @ + 1] ELSE UNCHANGED have

\* Everything in one visit to the loader, that has its lock.
Synchronize(t) ==
  /\ Variant \in {"code", "stale"} /\ pc[t] \in {"opened", "closed"}
  /\ reg' = (IF Variant = "code" THEN Map(at)
             ELSE [a \in Addrs |-> IF Map(at)[a] = "" THEN "" ELSE IF reg[a] # "" THEN reg[a] ELSE Map(at)[a]])
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ Return(t) /\ UNCHANGED <<at, ref, cnt, arg, snap, left>>
\* In two steps.
Look(t) ==
  /\ Variant = "late" /\ pc[t] \in {"opened", "closed"} /\ snap' = [snap EXCEPT ![t] = Map(at)]
  /\ pc' = [pc EXCEPT ![t] = IF @ = "opened" THEN "sync+" ELSE "sync-"] /\ UNCHANGED <<at, ref, reg, cnt, arg, have, left>>
Update(t) ==
  /\ pc[t] \in {"sync+", "sync-"} /\ reg' = snap[t] /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ (IF pc[t] = "sync+" THEN have' = [have EXCEPT ![t][arg[t]] = @ + 1] ELSE UNCHANGED have) /\ UNCHANGED <<at, ref, cnt, arg, snap, left>>
\* By counting.
Count(t) ==
  LET o == arg[t] IN
  /\ Variant = "refcount" /\ pc[t] \in {"opened", "closed"}
  /\ IF pc[t] = "opened"
     THEN /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
          /\ reg' = (IF reg[at[o]] # "" THEN reg ELSE [reg EXCEPT ![at[o]] = o])
     ELSE /\ cnt' = [cnt EXCEPT ![o] = IF @ > 0 THEN @ - 1 ELSE 0]
          /\ reg' = (IF cnt[o] = 1 THEN [a \in Addrs |-> IF reg[a] = o THEN "" ELSE reg[a]] ELSE reg)
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ Return(t) /\ UNCHANGED <<at, ref, arg, snap, left>>

Next == \E t \in Threads : Synchronize(t) \/ Look(t) \/ Update(t) \/ Count(t) \/ \E o \in Objs : RealOpen(t, o) \/ RealClose(t, o)
Spec == Init /\ [][Next]_vars

\* An object that a thread has open (its dlopen has returned), or that was there from the start, is found.
Finds == \A o \in Objs : (o \in Startup \/ \E t \in Threads : have[t][o] > 0) => at[o] # 0 /\ reg[at[o]] = o
\* When no call is in progress then the registry is exact.
Exact == (\A t \in Threads : pc[t] = "idle") => reg = Map(at)
\* An address that the registry gives to an object belongs to it, or to something that was loaded or unloaded by a call in progress.
Nearly == \A a \in Addrs : reg[a] # Map(at)[a] => \E t \in Threads : pc[t] # "idle"
=============================================================================
