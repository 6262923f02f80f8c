------------------------------ MODULE RcFileMC ------------------------------
EXTENDS RcFile, Json
CONSTANTS N1, N2, Menu, EmitScripts, Searches
VARIABLES S, hist
vars == <<S, hist>>

\* Each group of channels has a label that is a prefix of another one, mixed case, and a label of two words.
Width == 12
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(s \o " ", n)
LabelsDef == [c \in Channels |-> Pad(c, Width)]

MenuDefaults == {"channels_default = on", "channels_default = off", "channels_on = A*", "channels_off = a*, warning", "channels_toggle = *B,notice", "bogus = 1"}
MenuSyntax == {"", "# channels_default = on", "   # x = y", "no assignment", "= AAA", "channels_on", " channels_on\t= AAA ,abb\tBAB", "channels_on = #AAA",
               "gdb = /usr/bin/gdb -x = y", "xterm=  k \t#x  ", "silent = on", "silent=off", "mykey = v w", "channels_default = maybe", "other\t=\tv", "channels_on = two"}
MenuMasks == {"channels_default=off", "channels_on = *", "channels_off=*A*", "channels_on = ELF*", "channels_toggle = elfutils,*b", "channels_off=TWO", "channels_toggle = two*",
              "channels_on= ,, aaa ,,"}
MenuOne == {"channels_on = *B", "channels_off = WARN*, *"}

Reads == {[op |-> "read", at |-> "cwd", also |-> <<>>, named |-> FALSE, home |-> "set", ovr |-> o] : o \in {"none", "file"}}
Places == <<"cwd", "home", "pw", "default">>
Alsos == {<<>>, <<"home">>, <<"pw">>, <<"default">>, <<"home", "pw">>, <<"pw", "default">>, <<"home", "pw", "default">>, <<"cwd">>}
AllReads == [op : {"read"}, at : {"cwd", "home", "pw", "default"}, also : Alsos, named : BOOLEAN, home : {"set", "unset", "empty"}, ovr : {"none", "file", "missing"}]

Init == S = Init0 /\ hist = <<>>
Do(op) == S' = Apply(S, op) /\ hist' = Append(hist, op)
Done == hist # <<>> /\ hist[Len(hist)].op = "read"
Next ==
  /\ ~Done
  /\ \/ \E t \in Menu : Len(S.files[1]) < N1 /\ S.files[2] = <<>> /\ Do([op |-> "line", f |-> 1, text |-> t])
     \/ \E t \in Menu : Len(S.files[2]) < N2 /\ Do([op |-> "line", f |-> 2, text |-> t])
     \/ \E r \in (IF Searches THEN AllReads ELSE Reads) : (r.ovr = "none" => S.files[2] = <<>>) /\ Do(r)
Spec == Init /\ [][Next]_vars

\* Random files.
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
Pieces == <<"A", "AA", "a", "AAA", "b", "B", "*", "*", "AB", "ABB", "bab", "notice", "WARN", "ing", "e", "ELF", "u*", "tils", "two", "Mi", "xed", "de", "bug", "s*">>
RECURSIVE Mask(_), List(_)
Mask(n) == IF n = 0 THEN "" ELSE Pieces[Pick(DOMAIN Pieces)] \o Mask(n - 1)
List(n) == IF n = 0 THEN "" ELSE Mask(Pick(1..3)) \o (<<",", ", ", " ", "\t", " , ">>)[Pick(1..5)] \o List(n - 1)
Lists == <<"*", "*", "AAA", "a*", "*B", "warning", "elfutils", "two", "mixed, aaa", "A*,notice", "*i*">>
Chans(n) == IF Pick(1..2) = 1 THEN Lists[Pick(DOMAIN Lists)] ELSE List(Pick(1..3))
Eq(n) == (<<"=", " = ", "\t=", "= ", " =">>)[Pick(1..5)]
RandomLine(n) ==
  LET r == Pick(1..40)
  IN CASE r <= 10 -> "channels_on" \o Eq(0) \o Chans(0)
       [] r <= 18 -> "channels_off" \o Eq(0) \o Chans(0)
       [] r <= 24 -> "channels_toggle" \o Eq(0) \o Chans(0)
       [] r <= 30 -> "channels_default" \o Eq(0) \o (IF Pick(1..2) = 1 THEN "on" ELSE "off")
       [] r <= 31 -> "channels_default" \o Eq(0) \o (<<"On", "1", "", "off on">>)[Pick(1..4)]
       [] r <= 32 -> "  # " \o Chans(0)
       [] r <= 33 -> "silent" \o Eq(0) \o (<<"on", "off", "on", "x">>)[Pick(1..4)]
       [] r <= 34 -> "gdb" \o Eq(0) \o "/usr/bin/" \o Chans(0)
       [] r <= 35 -> "xterm" \o Eq(0) \o Mask(2) \o "  %s = "
       [] r <= 36 -> "mykey" \o Eq(0) \o Mask(3)
       [] r <= 37 -> (<<"key", "Channels_on", "channels", "silent_">>)[Pick(1..4)] \o Eq(0) \o Mask(2)
       [] r <= 38 -> ""
       [] OTHER -> (<<"nothing", "= x", "#", "  \t", "channels_on">>)[Pick(1..5)]
Mostly(common, others) == IF Pick(1..3) > 1 THEN common ELSE RandomElement(Now(others))
RandomRead(n) == LET named == Pick(1..4) = 1 IN
  [op |-> "read", at |-> Mostly("cwd", {"home", "pw", "default"}), also |-> Mostly(<<>>, Alsos), named |-> named, home |-> Mostly("set", {"unset", "empty"}),
   ovr |-> Mostly("file", {"none", "missing"})]
RandomOp(n) ==
  LET r == Pick(1..20)
      first == Len(S.files[1]) = 0
      more == S.files[2] # <<>>
  IN CASE r <= 2 -> [op |-> (IF Pick(1..2) = 1 THEN "on" ELSE "off"), c |-> Pick(Channels)]
       [] r <= 3 -> [op |-> "clear"]
       [] r <= 7 /\ first -> [op |-> "line", f |-> 1, text |-> "channels_default = " \o (IF Pick(1..2) = 1 THEN "on" ELSE "off")]
       [] r <= 12 -> [op |-> "line", f |-> 1, text |-> RandomLine(0)]
       [] r <= 16 -> [op |-> "line", f |-> 2, text |-> RandomLine(0)]
       [] r <= 18 /\ ~first -> RandomRead(0)
       [] OTHER -> [op |-> "line", f |-> 1, text |-> RandomLine(0)]
SimNext == S.dead = "" /\ \E op \in {RandomOp(0)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

View == <<S, Done>>
EmitC == (EmitScripts /\ hist'[Len(hist')].op = "read") => PrintT("SCRIPT " \o ToJson(hist'))
CONSTANT Depth
EmitEnd == (Len(hist') = Depth \/ S'.dead # "") => PrintT("SCRIPT " \o ToJson(hist'))

\* The promises, for the files at hand.
Here == [at |-> "cwd", also |-> {}, named |-> FALSE, home |-> "set", ovr |-> "file"]
With(s, files) == Read([s EXCEPT !.files = files], Here)
Same(a, b) == a.ch = b.ch /\ a.gdb = b.gdb /\ a.xterm = b.xterm /\ a.dead = b.dead
Strip(ls) == SelectSeq(ls, LAMBDA t : ~IsComment(Trim(t)))
CommentsHaveNoEffect == Same(With(S, S.files), With(S, <<Strip(S.files[1]), Strip(S.files[2])>>))
\* Spaces around a line do not matter.
SpacesHaveNoEffect == Same(With(S, S.files), With(S, [f \in 1..2 |-> [i \in DOMAIN S.files[f] |-> " \t" \o S.files[f][i] \o "  "]]))
\* After channels_default the earlier state is forgotten.
IsDefault(t) == Trim(t) \in {"channels_default = on", "channels_default = off", "channels_default=off"}
DefaultForgets == (\E i \in DOMAIN S.files[1] : IsDefault(S.files[1][i])) =>
                    With(S, S.files).ch = With([S EXCEPT !.ch = [c \in Channels |-> ~S.ch[c]]], S.files).ch
                    \/ With(S, S.files).dead # ""
\* The state of a channel never depends on that of another one.
Independent == LET d == With(S, S.files) IN \A c \in {"AAA", "WARNING", "TWO WORDS"} :
                 LET e == With([S EXCEPT !.ch[c] = ~@], S.files) IN d.dead = e.dead /\ \A x \in Channels \ {c} : d.ch[x] = e.ch[x]
\* A file that ends the program does it whatever the states of the channels.
UnknownOnlyWarns == With(S, S.files).ch = With(S, <<SelectSeq(S.files[1], LAMBDA t : t # "bogus = 1"), SelectSeq(S.files[2], LAMBDA t : t # "bogus = 1")>>).ch
=============================================================================
