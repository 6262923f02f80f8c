------------------------------- MODULE RcFile -------------------------------
(***************************************************************************)
(* Reading the rcfile: which file is read, what its lines mean, and which  *)
(* channels are on afterwards.  The text of the files is interpreted here, *)
(* character by character.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == INSTANCE Glob

CONSTANTS Channels,   \* labels of the public channels
          Labels      \* the same, as a function to the label as it is printed: padded to the common width

At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
Lower == "abcdefghijklmnopqrstuvwxyz"
UpperC == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == [c \in {At(Lower, i) : i \in 1..26} |-> At(UpperC, CHOOSE i \in 1..26 : At(Lower, i) = c)]
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in DOMAIN UpMap THEN UpMap[At(s, 1)] ELSE At(s, 1)) \o Upper(From(s, 2))
Blank == {" ", "\t", "\n"}
RECURSIVE TrimL(_), TrimR(_), Find(_, _, _)
TrimL(s) == IF s # "" /\ At(s, 1) \in Blank THEN TrimL(From(s, 2)) ELSE s
TrimR(s) == IF s # "" /\ At(s, Len(s)) \in Blank THEN TrimR(UpTo(s, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
\* The first position from i with a character of set; Len(s) + 1 if there is none.
Find(s, set, i) == IF i > Len(s) \/ At(s, i) \in set THEN i ELSE Find(s, set, i + 1)
Word(s) == UpTo(s, Find(s, {" "}, 1) - 1)

\* The masks of a list.
Sep == Blank \cup {","}
RECURSIVE Masks(_)
Masks(s) == IF s = "" THEN <<>>
            ELSE IF At(s, 1) \in Sep THEN Masks(From(s, 2))
            ELSE LET e == Find(s, Sep, 1) IN <<Upper(UpTo(s, e - 1))>> \o Masks(From(s, e))

\* A channel is selected by the first word of its label.
Name == [c \in Channels |-> Upper(Word(c))]
Selected(mask) == IF mask = "*" THEN Channels
                  ELSE IF Find(mask, {"*"}, 1) > Len(mask) THEN {c \in Channels : Name[c] = mask}
                  ELSE {c \in Channels : G!Match(mask, Name[c])}
Act(ch, mask, action) == LET sel == Selected(mask) IN [c \in Channels |-> IF c \in sel THEN (CASE action = "on" -> TRUE [] action = "off" -> FALSE [] OTHER -> ~ch[c]) ELSE ch[c]]
RECURSIVE ActAll(_, _, _)
ActAll(ch, masks, action) == IF masks = <<>> THEN ch ELSE ActAll(Act(ch, Head(masks), action), Tail(masks), action)
All(on) == [c \in Channels |-> on]

Warning(text) == Labels["WARNING"] \o ": " \o text

(* One line.  R: [ch, f (1: the rcfile, 2: the override), n (line number), def (line of channels_default per file), defon, reset,
   gdb, xterm, out, handled, dead, name] *)
Default(R, value) ==
  IF R.def[R.f] # 0
  THEN [R EXCEPT !.out = Append(@, Warning("rcfile: " \o R.name \o ":" \o ToString(R.n) \o ": channels_default already set in line "
                                            \o ToString(R.def[R.f]) \o "!  Entry ignored!"))]
  ELSE IF value \in {"on", "off"} THEN [R EXCEPT !.def[R.f] = R.n, !.defon = (value = "on"), !.ch = All(value = "on")]
  ELSE [R EXCEPT !.dead = "syntax error"]

SawDefault(R) == R.def[1] # 0 \/ R.def[2] # 0
OnOff(R, action, masks) ==
  LET fresh == R.f = 2 /\ ~R.reset /\ (IF action = "on" THEN ~SawDefault(R) \/ R.defon ELSE SawDefault(R) /\ ~R.defon)
      start == IF ~fresh THEN R.ch
               ELSE IF action = "off" THEN All(TRUE)
               ELSE [All(FALSE) EXCEPT !["WARNING"] = ~SawDefault(R)]
  IN [R EXCEPT !.reset = @ \/ fresh, !.ch = ActAll(start, masks, action)]

Keyword(R, key, value) ==
  CASE key = "silent" -> R
    [] key = "gdb" -> [R EXCEPT !.gdb = value]
    [] key = "xterm" -> [R EXCEPT !.xterm = value]
    [] key = "channels_default" -> Default(R, value)
    [] key = "channels_toggle" ->
         IF ~SawDefault(R) THEN [R EXCEPT !.dead = "channels_toggle used before channels_default"]
         ELSE [R EXCEPT !.ch = ActAll(@, Masks(value), "toggle")]
    [] key = "channels_on" -> OnOff(R, "on", Masks(value))
    [] key = "channels_off" -> OnOff(R, "off", Masks(value))
    \* The driver's override of unknown_keyword knows one keyword.
    [] key = "mykey" -> [R EXCEPT !.handled = Append(@, value)]
    [] OTHER -> [R EXCEPT !.out = Append(@, Warning("read_rcfile: " \o R.name \o ":" \o ToString(R.n) \o ": Unknown keyword '" \o key \o "'."))]

IsComment(t) == t = "" \/ At(t, 1) = "#"
Line(R0, text) ==
  LET R == [R0 EXCEPT !.n = @ + 1]
      t == Trim(text)
      eq == Find(t, {"="}, 1)
  IN IF R.dead # "" \/ IsComment(t) THEN R
     ELSE IF eq > Len(t) \/ eq = 1 THEN [R EXCEPT !.dead = "syntax error"]
     ELSE Keyword(R, UpTo(t, Find(t, Blank \cup {"="}, 1) - 1), Trim(From(t, eq + 1)))
RECURSIVE Lines(_, _)
Lines(R, ls) == IF ls = <<>> THEN R ELSE Lines(Line(R, Head(ls)), Tail(ls))

(* Which file: rd.at is where the rcfile was put, rd.also where other files with that name are, rd.named: LIBCWD_RCFILE_NAME is set,
   rd.home: HOME is "set", "unset" or "empty", rd.ovr: LIBCWD_RCFILE_OVERRIDE_NAME is "none", "file" or "missing" *)
Dir == [cwd |-> "", home |-> "../home/", pw |-> "../pw/", default |-> "../share/libcwd/"]
FileName(rd, p) == IF p = "default" THEN "../share/libcwd/libcwdrc" ELSE Dir[p] \o (IF rd.named THEN "my.rc" ELSE ".libcwdrc")
There(rd, p) == p = rd.at \/ p \in rd.also
Place(rd) == CASE There(rd, "cwd") -> "cwd"
               [] There(rd, "home") /\ rd.home = "set" -> "home"
               [] There(rd, "pw") -> "pw"
               [] There(rd, "default") /\ ~rd.named -> "default"
               [] OTHER -> "none"
Decoy(p) == <<"channels_default = on", "xterm = " \o p>>
Fallback(rd) == <<Warning("Neither ./.libcwdrc nor ../pw/.libcwdrc exist."), Warning("Using default rcfile \"../share/libcwd/libcwdrc\".")>>

\* S: [ch, files (the lines of the rcfile and the override), gdb, xterm, out, handled, dead]
Read(S, rd) ==
  LET p == Place(rd)
      R0 == [ch |-> S.ch, f |-> 1, n |-> 0, def |-> <<0, 0>>, defon |-> FALSE, reset |-> FALSE, gdb |-> S.gdb, xterm |-> S.xterm,
             out |-> (IF p = "default" THEN Fallback(rd) ELSE <<>>), handled |-> <<>>, dead |-> "",
             name |-> (IF p = "none" THEN "" ELSE FileName(rd, p))]
      R1 == Lines(R0, IF p = rd.at THEN S.files[1] ELSE Decoy(p))
      R2 == Lines([R1 EXCEPT !.f = 2, !.n = 0, !.name = "../override"], S.files[2])
  IN IF p = "none" THEN [S EXCEPT !.dead = "could not be read", !.out = <<>>]
     ELSE LET R == IF rd.ovr = "file" /\ R1.dead = "" THEN R2 ELSE R1
          IN [S EXCEPT !.ch = R.ch, !.gdb = R.gdb, !.xterm = R.xterm, !.out = R.out, !.handled = R.handled, !.dead = R.dead]

Start0 == [All(FALSE) EXCEPT !["WARNING"] = TRUE]
Init0 == [ch |-> Start0, files |-> <<<<>>, <<>>>>, gdb |-> "", xterm |-> "", out |-> <<>>, handled |-> <<>>, dead |-> ""]
ToSet(s) == {s[i] : i \in DOMAIN s}
Rd(op) == [at |-> op.at, also |-> ToSet(op.also), named |-> op.named, home |-> op.home, ovr |-> op.ovr]
Apply(S, op) ==
  CASE op.op = "off" -> [S EXCEPT !.ch[op.c] = FALSE]
    [] op.op = "on" -> [S EXCEPT !.ch[op.c] = TRUE]
    [] op.op = "line" -> [S EXCEPT !.files[op.f] = Append(@, op.text)]
    [] op.op = "clear" -> [S EXCEPT !.files = <<<<>>, <<>>>>]
    [] op.op = "read" -> Read(S, Rd(op))
=============================================================================
