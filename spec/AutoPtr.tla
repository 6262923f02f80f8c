------------------------------ MODULE AutoPtr ------------------------------
(***************************************************************************)
(* lockable_auto_ptr: pointers 1..P, of which each has a static type; the  *)
(* objects are numbered in the order in which they are created.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Types   \* sequence: the static type of each pointer: "base", "derived" (from base), or "array"

Ptrs == DOMAIN Types

\* Values of Types, for the configurations.
T_bb == <<"base", "base">>
T_bd == <<"base", "derived">>
T_bbd == <<"base", "base", "derived">>
T_dd == <<"derived", "derived">>
T_bdd == <<"base", "derived", "derived">>
T_aaa == <<"array", "array", "array">>
T_bbdd == <<"base", "base", "derived", "derived">>
T_aa == <<"array", "array">>
T_all == <<"base", "derived", "array", "derived", "base", "array">>

\* up: exists; ptr: number of the object (0: NULL)
NoPtr == [up |-> FALSE, ptr |-> 0, own |-> FALSE, lock |-> FALSE]
\* objs[o]: number of times that it was destroyed, how it was destroyed, and whether the user is responsible for it
Init0 == [p |-> [i \in Ptrs |-> NoPtr], objs |-> <<>>]

NewObj(t) == [del |-> 0, ty |-> t, raw |-> FALSE]
Del(S, o) == [S EXCEPT !.objs[o].del = @ + 1]
\* What happens to the object of a pointer that stops pointing to it.
Drop(S, i) == IF S.p[i].own THEN Del(S, S.p[i].ptr) ELSE S

Alive(S, o) == o # 0 /\ S.objs[o].del = 0

\* j is copied to the new or assigned pointer i: ownership moves, unless j is locked.
Take(S, i, j, lock) ==
  LET q == S.p[j]
  IN [S EXCEPT !.p[i] = [up |-> TRUE, ptr |-> q.ptr, own |-> q.own /\ ~q.lock, lock |-> lock],
               !.p[j].own = q.own /\ q.lock]

Convertible(i, j) == Types[i] = Types[j] \/ (Types[i] = "base" /\ Types[j] = "derived")

Enabled(S, op) ==
  LET i == op.i IN
  CASE op.op \in {"new", "null"} -> ~S.p[i].up
    [] op.op = "adopt" -> ~S.p[i].up /\ op.o \in DOMAIN S.objs /\ S.objs[op.o].raw /\ Alive(S, op.o)
                          /\ (S.objs[op.o].ty = Types[i] \/ (Types[i] = "base" /\ S.objs[op.o].ty = "derived"))
    [] op.op = "delete" -> op.o \in DOMAIN S.objs /\ S.objs[op.o].raw /\ Alive(S, op.o)
    [] op.op = "copy" -> ~S.p[i].up /\ S.p[op.j].up /\ Convertible(i, op.j)
    [] op.op = "assign" -> S.p[i].up /\ S.p[op.j].up /\ Convertible(i, op.j)
    [] op.op \in {"reset", "destroy", "unlock"} -> S.p[i].up
    [] op.op \in {"release", "lock"} -> S.p[i].up /\ S.p[i].own

Apply(S, op) ==
  LET i == op.i IN
  CASE op.op = "new" -> [S EXCEPT !.objs = Append(@, NewObj(Types[i])),
                                  !.p[i] = [up |-> TRUE, ptr |-> Len(S.objs) + 1, own |-> TRUE, lock |-> FALSE]]
    [] op.op = "null" -> [S EXCEPT !.p[i] = [NoPtr EXCEPT !.up = TRUE]]
    [] op.op = "adopt" -> [S EXCEPT !.objs[op.o].raw = FALSE, !.p[i] = [up |-> TRUE, ptr |-> op.o, own |-> TRUE, lock |-> FALSE]]
    [] op.op = "delete" -> [Del(S, op.o) EXCEPT !.objs[op.o].raw = FALSE]
    [] op.op = "copy" -> Take(S, i, op.j, FALSE)
    [] op.op = "assign" -> IF i = op.j THEN S ELSE Take(Drop(S, i), i, op.j, S.p[i].lock)
    [] op.op = "reset" -> [Drop(S, i) EXCEPT !.p[i].ptr = 0, !.p[i].own = FALSE]
    [] op.op = "release" -> [S EXCEPT !.p[i].own = FALSE, !.objs[S.p[i].ptr].raw = TRUE]
    [] op.op = "lock" -> [S EXCEPT !.p[i].lock = TRUE]
    [] op.op = "unlock" -> [S EXCEPT !.p[i].lock = FALSE]
    [] op.op = "destroy" -> [Drop(S, i) EXCEPT !.p[i] = NoPtr]

\* What can be seen: per pointer the object that get() returns, is_owner() and (of an owner) strict_owner(); per object
\* the number of destructor calls.
Obs(S) == [p |-> [i \in Ptrs |-> [up |-> S.p[i].up, ptr |-> S.p[i].ptr, own |-> S.p[i].own, strict |-> S.p[i].own /\ S.p[i].lock]],
           del |-> [o \in DOMAIN S.objs |-> S.objs[o].del]]
=============================================================================
