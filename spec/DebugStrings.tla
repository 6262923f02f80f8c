---------------------------- MODULE DebugStrings ----------------------------
\* Margin, marker and color strings, their stacks, the indentation, and the scope helpers Indent and Mark.
EXTENDS Integers, Sequences, TLC
Fields == {"margin", "marker", "con", "coff"}
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN c ELSE LET h == Rep(c, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN c ELSE "")
\* The text of an operation: op.n times op.c, optionally followed by a zero byte and an "x".
\* A zero byte is written as {00}, one character.
Text(op) == Rep(op.c, op.n) \o (IF op.z THEN "{00}x" ELSE "")
Size(op) == op.n * (IF op.c = "ab" THEN 2 ELSE 1) + (IF op.z THEN 2 ELSE 0)
\* op.v = "own": a part of the string itself, starting at op.from.
Given(S, op) == IF op.v = "own" THEN [t |-> SubSeq(S.val[op.f].t, op.from + 1, op.from + op.n), n |-> op.n] ELSE [t |-> Text(op), n |-> Size(op)]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* val: text and size; res: the capacity that was reserved; mst, kst: stacks of margins and markers;
\* scopes: the Indent and Mark objects that exist, the last one innermost.
Init0 == [val |-> [f \in Fields |-> IF f = "marker" THEN [t |-> ": ", n |-> 2] ELSE [t |-> "", n |-> 0]],
          res |-> [f \in Fields |-> 0], mst |-> <<>>, kst |-> <<>>, indent |-> 0, scopes |-> <<>>]

Live(S) == {i \in DOMAIN S.scopes : S.scopes[i].k = "mark" /\ S.scopes[i].live}
\* Markers pushed by live Marks have to stay on the stack.
Floor(S) == IF Live(S) = {} THEN 0 ELSE LET i == CHOOSE i \in Live(S) : \A j \in Live(S) : j <= i IN S.scopes[i].depth
TopMark(S) == CHOOSE i \in Live(S) : \A j \in Live(S) : j <= i
SameDepth(S, i) == Len(S.kst) = S.scopes[i].depth

Enabled(S, op) ==
  CASE op.op = "popm" -> S.mst # <<>>
    [] op.op = "popk" -> Len(S.kst) > Floor(S)
    [] op.op = "leave" -> S.scopes # <<>> /\ (Len(S.scopes) \in Live(S) => SameDepth(S, Len(S.scopes)))
    [] op.op \in {"assign", "append", "prepend"} -> op.v = "own" => (Len(S.val[op.f].t) = S.val[op.f].n /\ op.from + op.n <= S.val[op.f].n)
    [] op.op = "end" -> Live(S) # {} /\ SameDepth(S, TopMark(S))
    [] OTHER -> TRUE

EndMark(S, i) == [S EXCEPT !.val["marker"] = Last(S.kst).val, !.res["marker"] = Last(S.kst).res, !.kst = Front(S.kst),
                           !.indent = @ + S.scopes[i].n, !.scopes[i].live = FALSE]
Apply(S, op) ==
  CASE op.op = "assign" -> [S EXCEPT !.val[op.f] = Given(S, op)]
    [] op.op = "append" -> [S EXCEPT !.val[op.f] = [t |-> @.t \o Given(S, op).t, n |-> @.n + Given(S, op).n]]
    [] op.op = "prepend" -> [S EXCEPT !.val[op.f] = [t |-> Given(S, op).t \o @.t, n |-> @.n + Given(S, op).n]]
    [] op.op = "reserve" -> [S EXCEPT !.res[op.f] = IF op.n < S.val[op.f].n THEN @ ELSE op.n]
    [] op.op = "pushm" -> [S EXCEPT !.mst = Append(@, [val |-> S.val["margin"], res |-> S.res["margin"]])]
    [] op.op = "popm" -> [S EXCEPT !.val["margin"] = Last(S.mst).val, !.res["margin"] = Last(S.mst).res, !.mst = Front(@)]
    [] op.op = "pushk" -> [S EXCEPT !.kst = Append(@, [val |-> S.val["marker"], res |-> S.res["marker"]])]
    [] op.op = "popk" -> [S EXCEPT !.val["marker"] = Last(S.kst).val, !.res["marker"] = Last(S.kst).res, !.kst = Front(@)]
    [] op.op = "set" -> [S EXCEPT !.indent = op.n]
    [] op.op = "inc" -> [S EXCEPT !.indent = @ + op.n]
    [] op.op = "dec" -> [S EXCEPT !.indent = Max(0, @ - op.n)]
    [] op.op = "Indent" -> [S EXCEPT !.indent = @ + Max(0, op.n), !.scopes = Append(@, [k |-> "indent", n |-> Max(0, op.n), live |-> TRUE, depth |-> 0])]
    \* DoutEntering: op.on: its channel is on.
    [] op.op = "Enter" -> [S EXCEPT !.indent = @ + 2, !.scopes = Append(@, [k |-> "indent", n |-> 2, live |-> TRUE, depth |-> 0])]
    [] op.op = "Mark" -> [S EXCEPT !.kst = Append(@, [val |-> S.val["marker"], res |-> S.res["marker"]]),
                                   !.val["marker"] = [t |-> @.t \o Rep(" ", S.indent) \o op.c \o " ", n |-> @.n + S.indent + (IF op.c = "ab" THEN 2 ELSE 1) + 1],
                                   !.indent = 0,
                                   !.scopes = Append(@, [k |-> "mark", n |-> S.indent, live |-> TRUE, depth |-> Len(S.kst) + 1])]
    [] op.op = "end" -> EndMark(S, TopMark(S))
    [] op.op = "leave" -> LET x == Last(S.scopes)
                              T == IF x.k = "indent" THEN [S EXCEPT !.indent = Max(0, @ - x.n)]
                                   ELSE IF x.live THEN EndMark(S, Len(S.scopes)) ELSE S
                          IN [T EXCEPT !.scopes = Front(@)]
    [] OTHER -> S

\* What a statement on dc::notice looks like.
Line(S, data) == S.val["con"].t \o S.val["margin"].t \o "NOTICE  " \o S.val["marker"].t \o Rep(" ", S.indent) \o data \o S.val["coff"].t \o "\n"
=============================================================================
