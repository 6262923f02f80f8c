--------------------------- MODULE DebugStringsMC ---------------------------
EXTENDS DebugStrings, Json
CONSTANTS Depth, EmitScripts, Menu
VARIABLES S, hist
vars == <<S, hist>>
Init == S = Init0 /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ Enabled(S, op) /\ S' = Apply(S, op) /\ hist' = Append(hist, op)
Txt(o, f, c, n) == [op |-> o, f |-> f, c |-> c, n |-> n, z |-> FALSE, v |-> "ptr", from |-> 0]
Part(o, f, i, n) == [op |-> o, f |-> f, c |-> "", n |-> n, z |-> FALSE, v |-> "own", from |-> i]
\* Sizes around the capacities that libcwd uses (64, 128, ...).
Strings == \/ \E o \in {"assign", "append", "prepend"}, n \in {0, 1, 63, 65, 130} : Do(Txt(o, "margin", "a", n))
           \/ \E n \in {0, 64, 65, 200} : Do([op |-> "reserve", f |-> "margin", n |-> n])
           \/ \E o \in {"assign", "append", "prepend"} : \E p \in {<<0, 1>>, <<0, 63>>, <<0, 130>>, <<61, 4>>, <<2, 62>>} : Do(Part(o, "margin", p[1], p[2]))
           \/ Do(Txt("append", "margin", "b", 2)) \/ Do(Txt("prepend", "margin", "b", 2))
           \/ Do([op |-> "pushm"]) \/ Do([op |-> "popm"])
Scopes == \/ \E n \in {0, 2} : Do([op |-> "Indent", n |-> n])
          \/ \E c \in {"|", "ab"} : Do([op |-> "Mark", c |-> c])
          \/ Do([op |-> "Enter", on |-> TRUE])
          \/ Do([op |-> "end"]) \/ Do([op |-> "leave"])
          \/ \E n \in {3} : Do([op |-> "inc", n |-> n]) \/ Do([op |-> "dec", n |-> n])
          \/ Do([op |-> "pushk"]) \/ Do([op |-> "popk"])
          \/ Do(Txt("assign", "marker", "#", 1))
Stacks == \/ \E f \in {"margin", "marker"} : Do(Txt("append", f, "a", 70)) \/ Do(Txt("assign", f, "b", 1))
          \/ Do([op |-> "pushm"]) \/ Do([op |-> "popm"]) \/ Do([op |-> "pushk"]) \/ Do([op |-> "popk"])
Next == IF Menu = "strings" THEN Strings ELSE IF Menu = "scopes" THEN Scopes ELSE Stacks
Spec == Init /\ [][Next]_vars
View == S
EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))

Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Len1 == {0, 1, 2, 7, 15, 31, 32, 60, 61, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 511, 512}
RandomOp(n) ==
  LET f == RandomElement(Now(Fields))
      k == IF RandomElement(Now(1..3)) = 1 THEN RandomElement(Now(Len1)) ELSE RandomElement(Now(0..9))
      c == RandomElement(Now({"a", "b", "ab", "."}))
      z == RandomElement(Now(1..12)) = 1
      v == RandomElement(Now({"ptr", "string"}))
      r == RandomElement(Now(1..33))
      big == S.val[f].n > 1500
      own == Len(S.val[f].t) = S.val[f].n /\ S.val[f].n > 0 /\ RandomElement(Now(1..4)) = 1
      from == RandomElement(Now(0..S.val[f].n))
      t(o) == IF own THEN Part(o, f, from, RandomElement(Now(0..(S.val[f].n - from))))
              ELSE [op |-> o, f |-> f, c |-> c, n |-> k, z |-> z, v |-> v, from |-> 0]
  IN CASE r <= 3 \/ (r <= 10 /\ big) -> t("assign")
       [] r <= 7 -> t("append")
       [] r <= 10 -> t("prepend")
       [] r <= 12 -> [op |-> "reserve", f |-> f, n |-> RandomElement(Now(Len1))]
       [] r <= 13 -> [op |-> "pushm"]
       [] r <= 14 -> [op |-> "popm"]
       [] r <= 16 -> [op |-> "pushk"]
       [] r <= 18 -> [op |-> "popk"]
       [] r <= 19 -> [op |-> "set", n |-> RandomElement(Now(0..9))]
       [] r <= 20 -> [op |-> "inc", n |-> RandomElement(Now({0, 1, 4, 70}))]
       [] r <= 22 -> [op |-> "dec", n |-> RandomElement(Now({0, 1, 4, 80}))]
       [] r <= 24 -> [op |-> "Indent", n |-> RandomElement(Now({-3, 0, 1, 2, 4, 65}))]
       [] r <= 26 -> [op |-> "Mark", c |-> RandomElement(Now({"|", "ab", "*"}))]
       [] r <= 28 -> [op |-> "end"]
       [] r <= 30 -> [op |-> "Enter", on |-> RandomElement(Now(BOOLEAN))]
       [] OTHER -> [op |-> "leave"]
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ Enabled(S, op) THEN op ELSE Draw(n - 1)
SimNext == \E op \in {Draw(50)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

NeverNegative == S.indent >= 0
\* A monitor that knows the operations only: the state at the moment of every push that was not popped yet.
RECURSIVE At(_)
At(h) == IF h = <<>> THEN Init0 ELSE Apply(At(Front(h)), Last(h))
RECURSIVE Opening(_, _, _, _)
\* The position of the operation in "open" that the last one in h (in "close") undoes.
Opening(h, open, close, n) ==
  IF h = <<>> THEN 0
  ELSE LET o == Last(h).op IN
       IF o \in open THEN (IF n = 0 THEN Len(h) ELSE Opening(Front(h), open, close, n - 1))
       ELSE Opening(Front(h), open, close, IF o \in close THEN n + 1 ELSE n)
\* Popping restores what was pushed.
PopRestores == [][(hist' # hist /\ Last(hist').op = "popm") =>
                    LET i == Opening(hist, {"pushm"}, {"popm"}, 0) IN i > 0 /\ S'.val["margin"] = At(SubSeq(hist, 1, i - 1)).val["margin"]]_vars
\* A Mark that ends, early or not, restores the marker it found, and the indentation relative to changes in the meantime.
Ended == \E i \in DOMAIN S.scopes : i \in Live(S) /\ (i > Len(S'.scopes) \/ ~S'.scopes[i].live)
MarkUndone == [][(hist' # hist /\ Ended) => (S'.val["marker"] = Last(S.kst).val /\ S'.indent = S.indent + S.scopes[TopMark(S)].n)]_vars
\* A scope in which nothing else changes the indentation leaves no trace of itself.
Clean(h) == \A i \in DOMAIN h : h[i].op \in {"Indent", "Mark", "Enter", "end", "leave"}
ScopesBalance == (S.scopes = <<>> /\ Clean(hist)) => (S.indent = 0 /\ S.val["marker"] = Init0.val["marker"] /\ S.kst = <<>>)
=============================================================================
