---------------------------- MODULE SymbolRanges ----------------------------
(***************************************************************************)
(* Which function symbol does an address belong to, when symbols overlap?  *)
(* Symbols [s, e) are inserted one by one; owner[a] is the number of the   *)
(* symbol that address a is attributed to (0: none).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxAddr
Addrs == 0..MaxAddr

Size(y) == y.e - y.s
In(y, a) == y.s <= a /\ a < y.e

\* Does symbol x beat the already present y?  Debug information first, then the smallest.
Beats(x, y) == IF x.dwarf # y.dwarf THEN x.dwarf ELSE Size(x) < Size(y)

Init0 == [syms |-> <<>>, owner |-> [a \in Addrs |-> 0]]

Insert(S, op) ==
  LET y == [s |-> op.s, e |-> op.en, dwarf |-> op.dwarf]
      n == Len(S.syms) + 1
      own == [a \in Addrs |-> IF In(y, a) /\ (S.owner[a] = 0 \/ Beats(y, S.syms[S.owner[a]])) THEN n ELSE S.owner[a]]
  IN [syms |-> Append(S.syms, y), owner |-> own]
\* The insertion succeeds if some part of the new symbol was needed.
Stored(S) == \E a \in Addrs : S.owner[a] = Len(S.syms)
=============================================================================
