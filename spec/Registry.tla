------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registries of channels and debug objects: what iterating, finding   *)
(* and listing show while channels are created, by several threads.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Printables == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {At(Printables, i) : i \in 1..Len(Printables)} |-> CHOOSE i \in 1..Len(Printables) : At(Printables, i) = c]
\* Lower case of a printable character, as its number.
Low(n) == IF n >= Ord["A"] /\ n <= Ord["Z"] THEN n + 32 ELSE n
RECURSIVE Pad(_, _), Less(_, _), SamePrefix(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(s \o " ", n)
\* Alphabetical order of labels of equal length.
Less(a, b) == a # "" /\ (Ord[At(a, 1)] < Ord[At(b, 1)] \/ (At(a, 1) = At(b, 1) /\ Less(From(a, 2), From(b, 2))))
SamePrefix(p, s) == p = "" \/ (s # "" /\ Low(Ord[At(p, 1)]) = Low(Ord[At(s, 1)]) /\ SamePrefix(From(p, 2), From(s, 2)))

\* chans: by number; off[t] of a channel: the off counter (below 0: on) in each thread.
Chan(label, hidden, on) == [label |-> label, hidden |-> hidden, off |-> [t \in Threads |-> IF t \in on THEN -1 ELSE 0]]
Builtin == <<"DEBUG", "ELFUTILS", "WARNING", "NOTICE", "SYSTEM">>
Init0 == [chans |-> [i \in DOMAIN Builtin |-> Chan(Builtin[i], FALSE, IF Builtin[i] = "WARNING" THEN {1} ELSE {})],
          vis |-> <<1, 2, 4, 5, 3>>,     \* DEBUG ELFUTILS NOTICE SYSTEM WARNING
          width |-> 8, objs |-> 1, out |-> [t \in Threads |-> FALSE]]

Label(S, k) == Pad(S.chans[k].label, S.width)
\* A new channel comes before the first one that is larger.
Place(S, label) == LET after == {i \in DOMAIN S.vis : Less(Pad(label, 16), Pad(S.chans[S.vis[i]].label, 16))}
                   IN IF after = {} THEN Len(S.vis) + 1 ELSE CHOOSE i \in after : \A j \in after : i <= j
Max(a, b) == IF a > b THEN a ELSE b
New(S, k, label, hidden, t) ==
  LET S1 == [S EXCEPT !.chans = @ @@ (k :> Chan(label, hidden, IF label = "WARNING" THEN {t} ELSE {})), !.width = Max(@, Len(label))]
      p == Place(S, label)
  IN IF hidden THEN S1 ELSE [S1 EXCEPT !.vis = SubSeq(@, 1, p - 1) \o <<k>> \o SubSeq(@, p, Len(@))]

On(S, t, k) == S.chans[k].off[t] < 0
\* The last channel in the order whose label, padding included, starts with the text.
FindAll(S, text) == {i \in DOMAIN S.vis : SamePrefix(text, Label(S, S.vis[i]))}
FindChan(S, text) == LET m == FindAll(S, text) IN IF m = {} THEN 0 ELSE S.vis[CHOOSE i \in m : \A j \in m : j <= i]

\* What the operations that look show.
Seen(S, t) == [i \in DOMAIN S.vis |-> [k |-> S.vis[i], on |-> On(S, t, S.vis[i])]]
Listed(S, t) == IF ~S.out[t] THEN <<>> ELSE [i \in DOMAIN S.vis |-> Label(S, S.vis[i]) \o (IF On(S, t, S.vis[i]) THEN ": Enabled" ELSE ": Disabled")]
Said(S, t, k) == IF S.out[t] /\ On(S, t, k) THEN <<Label(S, k) \o ": x">> ELSE <<>>

Enabled(S, op) ==
  CASE op.op = "new" -> op.k \notin DOMAIN S.chans
    [] op.op = "con" -> op.k \in DOMAIN S.chans /\ ~On(S, op.t, op.k)
    [] op.op \in {"coff", "say"} -> op.k \in DOMAIN S.chans
    [] op.op = "out" -> ~S.out[op.t]
    [] OTHER -> TRUE
Apply(S, op) ==
  CASE op.op = "new" -> New(S, op.k, op.label, op.hidden, op.t)
    [] op.op = "con" -> [S EXCEPT !.chans[op.k].off[op.t] = @ - 1]
    [] op.op = "coff" -> [S EXCEPT !.chans[op.k].off[op.t] = @ + 1]
    [] op.op = "obj" -> [S EXCEPT !.objs = @ + 1]
    [] op.op = "out" -> [S EXCEPT !.out[op.t] = TRUE]
    [] OTHER -> S
Lines(S, op) == CASE op.op = "list" -> Listed(S, op.t) [] op.op = "say" -> Said(S, op.t, op.k) [] OTHER -> <<>>
Found(S, op) == IF op.op = "find" THEN FindChan(S, op.text) ELSE 0
=============================================================================
