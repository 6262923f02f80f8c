---------------------------- MODULE DebugOutput ----------------------------
(***************************************************************************)
(* Debug statements of libcwd: Dout/DoutFatal, continued output, on/off    *)
(* counters, formatting, and what is written to the streams.               *)
(*                                                                         *)
(* One operation of the model is one call of the public API; a statement   *)
(* is split in its begin (channel test and prefix), the writing of data    *)
(* and its end, because other statements can be executed by the data.      *)
(*                                                                         *)
(* Every operator Op(S, op) maps a state to [s |-> new state, out |-> what *)
(* was written].  What is written is a sequence of tokens, so that the     *)
(* guarantees can be stated about tokens (module DebugOutputMC), while     *)
(* Render() gives the exact text that the implementation must produce      *)
(* (module DebugOutputTrace).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,    \* 1..n, thread 1 is the main thread
          Objects,    \* 0..m, debug object 0 is libcw_do
          Channels,   \* labels of the channels
          LabelWidth, \* length of the longest label
          Visible     \* the labels of all public channels, in alphabetical order

\* Control flags.
Flags == {"nonewline", "noprefix", "nolabel", "bmargin", "blabel", "bmarker",
          "cerr", "flush", "wait", "error"}

MaxOpen == 65         \* More nested statements than this is treated as endless recursion.
MaxSaved == 64

ErrText == [ ENOENT |-> "No such file or directory", EINTR |-> "Interrupted system call",
             EAGAIN |-> "Resource temporarily unavailable", EPERM |-> "Operation not permitted",
             ERANGE |-> "Numerical result out of range", ENOMEM |-> "Cannot allocate memory" ]

Blank == "                                                                                "
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 80 THEN SubSeq(Blank, 1, n) ELSE Blank \o Spaces(n - 80)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
Label(c) == IF c = "always" THEN Rep(">", LabelWidth)
            ELSE IF c = "core" THEN "COREDUMP" \o Spaces(LabelWidth - 8)
            ELSE IF c = "fatal" THEN "FATAL" \o Spaces(LabelWidth - 5)
            ELSE c \o Spaces(LabelWidth - Len(c))

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* A token: its kind, text, and the id of the statement that it belongs to.
Tok(k, s, id) == IF s = "" THEN <<>> ELSE <<[k |-> k, s |-> s, id |-> id]>>
RECURSIVE Render(_)
Render(toks) == IF toks = <<>> THEN "" ELSE Head(toks).s \o Render(Tail(toks))

\* who is -1 if the thread that left the line open has ended since.
\* coff is the color_off of that thread when it wrote that text.
NoOpen == [who |-> 0, id |-> 0, coff |-> ""]
Fmt0 == [margin |-> "", marker |-> ": ", con |-> "", coff |-> "", indent |-> 0, ms |-> <<>>, ks |-> <<>>]
DO0 == [off |-> 0,            \* off counter; output is on when it is negative
        fmt |-> Fmt0,
        stk |-> <<>>,         \* the statements being put together; the last one is the current one
        saved |-> <<>>,       \* off counts of the enclosing continued statements
        muted |-> 0,          \* number of switched off continued statements that we are in
        unf |-> FALSE,        \* a statement starting now interrupts the open line of the current one
        forced |-> <<>>]      \* what force_on() found

TSD0(initchan) == [do |-> [o \in Objects |-> DO0],
        chan |-> initchan,
        cforced |-> [c \in Channels |-> <<>>],
        frames |-> <<>>,      \* statements whose data is being evaluated (by this thread)
        alive |-> TRUE]

\* Channels start off, except that WARNING is on in the thread that created it.
MainChan == [c \in Channels |-> IF c = "WARNING" THEN -1 ELSE 0]
AllOff == [c \in Channels |-> 0]

Init0 == [th |-> [t \in Threads |-> TSD0(IF t = 1 THEN MainChan ELSE AllOff)],
          open |-> [o \in Objects |-> NoOpen],  \* who left the last line open, and with which continued statement
          af |-> [o \in Objects |-> 0],         \* always-flush count
          next |-> 1,                           \* next statement id
          dead |-> "no"]                        \* "no", "exit180", "sig6"

-----------------------------------------------------------------------------
\* Helpers: a result is [s, out], out a sequence of [st (stream), tk (token)].

To(st, toks) == [i \in DOMAIN toks |-> [st |-> st, tk |-> toks[i]]]

\* Everything that is written while the lock is held once.
Locked(st, toks) == IF toks = <<>> THEN <<>> ELSE To(st, <<[k |-> "lock", s |-> "", id |-> 0]>> \o toks)

DObj(S, t, o) == S.th[t].do[o]
SetDO(S, t, o, d) == [S EXCEPT !.th[t].do[o] = d]
Top(S, t, o) == Last(S.th[t].do[o].stk)
SetTop(S, t, o, st) == [S EXCEPT !.th[t].do[o].stk = Append(Front(@), st)]

CoffTok(S, t, o, id) == Tok("coff", S.th[t].do[o].fmt.coff, id)

\* What is written in front of a resumed line, following the prefix.
ContTok(S, t, o, id) ==
  LET con == S.th[t].do[o].fmt.con
  IN CoffTok(S, t, o, id) \o Tok("cont", IF con = "" THEN "<continued> " ELSE "<continued>" \o con \o " ", id)

StreamOf(o, st) == IF "cerr" \in st.flags THEN "cerr" ELSE IF o = 0 THEN "s0" ELSE "s1"

\* Write what the current statement of t has pending to the stream (one critical area of the lock).
\*   req : terminate with <unfinished>;  fl : flush;  nl : the text ends on a newline;
\*   poss : if it does not, then that is because of nonewline_cf.
WriteTo(S, t, o, req, fl, nl, poss) ==
  LET st == Top(S, t, o)
      op == S.open[o]
      dest == StreamOf(o, st)
      foreign == op.who # 0 /\ op.who # t
      close == IF ~foreign THEN <<>>
               ELSE Tok("coff", op.coff, op.id)
                    \o (IF op.id # 0 THEN Tok("unf", "<unfinished>\n", op.id) ELSE Tok("nonl", "<no newline>\n", 0))
      S1 == IF foreign /\ op.id # 0 /\ op.who \in Threads
            THEN [S EXCEPT !.th[op.who].do[o].stk =
                    [i \in DOMAIN @ |-> IF @[i].id = op.id THEN [@[i] EXCEPT !.uap = TRUE, !.cneed = TRUE] ELSE @[i]]]
            ELSE S
      op1 == IF foreign THEN NoOpen ELSE op
      resume == st.cneed /\ st.pend # <<>>
      res == IF resume THEN st.pfx \o ContTok(S, t, o, st.id) ELSE <<>>
      uap == IF resume THEN FALSE ELSE st.uap
      unf == IF req /\ ~uap THEN CoffTok(S, t, o, st.id) \o Tok("unf", "<unfinished>\n", st.id) ELSE <<>>
      flush == IF fl THEN Tok("flush", "^", st.id) ELSE <<>>
      S2 == SetTop(S1, t, o, [st EXCEPT !.pend = <<>>, !.uap = IF nl \/ st.pend # <<>> THEN nl ELSE @, !.cneed = IF resume THEN FALSE ELSE @])
      op2 == IF nl THEN NoOpen
             ELSE IF st.pend # <<>> THEN [who |-> t, id |-> IF poss THEN 0 ELSE st.id, coff |-> S.th[t].do[o].fmt.coff]
             ELSE IF poss /\ op1.id = st.id THEN [op1 EXCEPT !.id = 0]
             ELSE op1
  IN [s |-> [S2 EXCEPT !.open[o] = op2],
      out |-> Locked(dest, close \o res \o st.pend \o unf \o flush)]

Died(S, how) == [S EXCEPT !.dead = how]

-----------------------------------------------------------------------------
\* The begin of a (non continuing) statement.

PrefixToks(S, t, o, fl, label, id) ==
  LET f == S.th[t].do[o].fmt
  IN Tok("con", f.con, id) \o
     (IF "noprefix" \in fl THEN <<>>
      ELSE Tok("margin", IF "bmargin" \in fl THEN Spaces(Len(f.margin)) ELSE f.margin, id)
           \o (IF "nolabel" \in fl THEN <<>>
               ELSE Tok("label", IF "blabel" \in fl THEN Spaces(LabelWidth) ELSE Label(label), id)
                    \o Tok("marker", IF "bmarker" \in fl THEN Spaces(Len(f.marker)) ELSE f.marker, id)
                    \o Tok("indent", Spaces(f.indent), id)))

\* The interruption of continued output whose line is still open: write it, and prepare the resumption.
Interrupt(S, t, o) ==
  LET w == WriteTo(S, t, o, TRUE, FALSE, TRUE, FALSE)
      st == Top(w.s, t, o)
  IN [w EXCEPT !.s = SetTop(w.s, t, o, [st EXCEPT !.pend = st.pfx \o ContTok(w.s, t, o, st.id), !.uap = FALSE, !.cneed = FALSE])]

\* kind: "B" for Dout, "X" for DoutFatal.
Start(S, t, o, label, fl, cont, err, ends) ==
  LET d0 == DObj(S, t, o)
      has == d0.stk # <<>>
      intr == has /\ Top(S, t, o).cont /\ d0.unf
      w == IF intr THEN Interrupt(S, t, o) ELSE [s |-> S, out |-> <<>>]
      S1 == w.s
      d1 == DObj(S1, t, o)
      first == has /\ ~Last(d1.stk).nested
      d2 == IF first THEN [d1 EXCEPT !.fmt.indent = @ + 4, !.stk = Append(Front(@), [Last(@) EXCEPT !.nested = TRUE])] ELSE d1
      S2 == SetDO(S1, t, o, d2)
      id == S2.next
      flags == IF has /\ "cerr" \in Last(d2.stk).flags THEN fl \cup {"cerr"} ELSE fl
      pfx == PrefixToks(S2, t, o, fl, label, id)
      new == [id |-> id, label |-> label, flags |-> flags, cont |-> cont, cexp |-> FALSE, fin |-> FALSE,
              err |-> err, pfx |-> pfx, pend |-> pfx, uap |-> FALSE, cneed |-> FALSE, nested |-> FALSE, ends |-> ends]
      d3 == [d2 EXCEPT !.stk = Append(@, new), !.unf = TRUE]
      S3 == [SetDO(S2, t, o, d3) EXCEPT !.next = id + 1, !.th[t].frames = Append(@, [o |-> o, id |-> id])]
  IN IF has /\ Len(d0.stk) >= MaxOpen THEN [s |-> Died(S1, "sig6"), out |-> w.out]
     ELSE [s |-> S3, out |-> w.out]

ChanOn(S, t, c) == c = "always" \/ S.th[t].chan[c] < 0
AnyOn(S, t, chs) == \E i \in DOMAIN chs : ChanOn(S, t, chs[i])
FirstOn(S, t, chs) == chs[CHOOSE i \in DOMAIN chs : ChanOn(S, t, chs[i]) /\ \A j \in 1..(i-1) : ~ChanOn(S, t, chs[j])]

ObjOn(S, t, o) == DObj(S, t, o).off < 0

\* Is a statement executed (prefix printed and data evaluated)?
BeginOn(S, op) ==
  CASE op.op = "X" -> TRUE
    [] op.op = "B" -> ObjOn(S, op.t, op.o) /\ AnyOn(S, op.t, op.chs)
    [] op.op \in {"C", "F"} -> ObjOn(S, op.t, op.o) /\ DObj(S, op.t, op.o).muted = 0

Begin(S, op) ==
  LET t == op.t  o == op.o
      on == BeginOn(S, op)
      d == DObj(S, t, o)
      S1 == IF ~op.cont \/ ~ObjOn(S, t, o) THEN S
            ELSE IF ~on THEN [S EXCEPT !.th[t].do[o].muted = @ + 1]
            ELSE [S EXCEPT !.th[t].do[o].saved = Append(@, d.muted), !.th[t].do[o].muted = 0]
  IN IF ~on THEN [s |-> S1, out |-> <<>>]
     ELSE IF op.cont /\ Len(d.saved) >= MaxSaved THEN [s |-> Died(S, "sig6"), out |-> <<>>]
     ELSE Start(S1, t, o, FirstOn(S, t, op.chs), op.fl, op.cont, op.err, "no")

\* DoutFatal: also when the debug object is off.
FatalBegin(S, op) == Start(S, op.t, op.o, op.chs[1], op.fl, FALSE, op.err,
                           IF \E i \in DOMAIN op.chs : op.chs[i] = "core" THEN "sig6" ELSE "exit180")

\* dc::continued and dc::finish
ContBegin(S, op) ==
  LET t == op.t  o == op.o
      d == DObj(S, t, o)
      fin == op.op = "F"
      st == Top(S, t, o)
      misuse == (fin /\ d.saved = <<>>) \/ d.stk = <<>> \/ ~Last(d.stk).cexp
      new == [st EXCEPT !.flags = @ \cup op.fl, !.err = op.err, !.fin = fin, !.cexp = IF fin THEN FALSE ELSE @]
      S1 == IF fin THEN [S EXCEPT !.th[t].do[o].muted = Last(d.saved), !.th[t].do[o].saved = Front(@)] ELSE S
  IN IF ~ObjOn(S, t, o) THEN [s |-> S, out |-> <<>>]
     ELSE IF d.muted > 0 THEN [s |-> IF fin THEN [S EXCEPT !.th[t].do[o].muted = @ - 1] ELSE S, out |-> <<>>]
     ELSE IF misuse THEN [s |-> Died(S, "misuse"), out |-> <<>>]
     ELSE [s |-> [SetTop(S1, t, o, new) EXCEPT !.th[t].frames = Append(@, [o |-> o, id |-> st.id])], out |-> <<>>]

\* Data of the innermost statement whose data is being evaluated.
CurFrame(S, t) == Last(S.th[t].frames)
PutData(S, t, s) ==
  LET f == CurFrame(S, t)
  IN [s |-> [S EXCEPT !.th[t].do[f.o].stk =
              [i \in DOMAIN @ |-> IF @[i].id = f.id THEN [@[i] EXCEPT !.pend = @ \o Tok("data", s, f.id)] ELSE @[i]]],
      out |-> <<>>]

\* The end of a statement, or of one piece of continued output.
CanEnd(S, t) == S.th[t].frames # <<>> /\
                LET f == CurFrame(S, t) IN S.th[t].do[f.o].stk # <<>> /\ Top(S, t, f.o).id = f.id

ErrToks(st) == IF "error" \in st.flags THEN Tok("err", ": " \o st.err \o " (" \o ErrText[st.err] \o ")", st.id) ELSE <<>>

EndPiece(S, t, o) ==
  LET st == Top(S, t, o)
      S1 == [SetTop(S, t, o, [st EXCEPT !.cexp = TRUE]) EXCEPT !.th[t].do[o].unf = TRUE]
  IN IF S.af[o] > 0 \/ "flush" \in st.flags THEN WriteTo(S1, t, o, FALSE, TRUE, FALSE, FALSE)
     ELSE [s |-> S1, out |-> <<>>]

EndStatement(S, t, o) ==
  LET st == Top(S, t, o)
      nl == "nonewline" \notin st.flags
      flush == "flush" \in st.flags \/ S.af[o] > 0
      S1 == SetTop(S, t, o, [st EXCEPT !.pend = @ \o ErrToks(st) \o
                              (IF nl THEN CoffTok(S, t, o, st.id) \o Tok("nl", "\n", st.id) ELSE <<>>)])
      fatal == st.ends # "no"
      wait == "wait" \in st.flags /\ ~fatal
      w == WriteTo(S1, t, o, FALSE, fatal \/ wait \/ flush, nl, TRUE)
      S2 == w.s
      d == DObj(S2, t, o)
      out == IF wait THEN w.out \o Locked(StreamOf(o, st), Tok("ret", "(type return)", st.id) \o Tok("flush", "^", st.id)) ELSE w.out
      rest == Front(d.stk)
      rest1 == IF rest # <<>> /\ flush THEN Append(Front(rest), [Last(rest) EXCEPT !.flags = @ \cup {"flush"}]) ELSE rest
      d1 == [d EXCEPT !.stk = rest1, !.fmt.indent = IF st.nested THEN @ - 4 ELSE @, !.unf = FALSE]
  IN IF fatal THEN [s |-> Died(S2, st.ends), out |-> out]
     ELSE [s |-> SetDO(S2, t, o, d1), out |-> out]

End(S, t) ==
  LET f == CurFrame(S, t)
      st == Top(S, t, f.o)
      S1 == [S EXCEPT !.th[t].frames = Front(@)]
  IN IF st.cont /\ ~st.fin THEN EndPiece(S1, t, f.o) ELSE EndStatement(S1, t, f.o)

-----------------------------------------------------------------------------
\* Everything else that changes the state of a thread.

ObjOff(S, t, o) == [S EXCEPT !.th[t].do[o].off = @ + 1]
ObjOnce(S, t, o) == [S EXCEPT !.th[t].do[o].off = @ - 1]
ObjForce(S, t, o) == [S EXCEPT !.th[t].do[o].forced = Append(@, DObj(S, t, o).off), !.th[t].do[o].off = -1]
ObjRestore(S, t, o) == LET d == DObj(S, t, o)
                       IN IF d.off # -1 THEN Died(S, "misuse")
                          ELSE SetDO(S, t, o, [d EXCEPT !.off = Last(d.forced), !.forced = Front(@)])
ChOff(S, t, c) == [S EXCEPT !.th[t].chan[c] = @ + 1]
ChOn(S, t, c) == IF S.th[t].chan[c] = -1 THEN Died(S, "misuse") ELSE [S EXCEPT !.th[t].chan[c] = @ - 1]
ChForce(S, t, c) == [S EXCEPT !.th[t].cforced[c] = Append(@, S.th[t].chan[c]), !.th[t].chan[c] = -1]
ChRestore(S, t, c) == IF S.th[t].chan[c] # -1 THEN Died(S, "misuse")
                      ELSE [S EXCEPT !.th[t].chan[c] = Last(S.th[t].cforced[c]), !.th[t].cforced[c] = Front(@)]

SetFmt(S, t, o, f, v) == [S EXCEPT !.th[t].do[o].fmt[f] = v]
Push(S, t, o, stk, f) == [S EXCEPT !.th[t].do[o].fmt[stk] = Append(@, DObj(S, t, o).fmt[f])]
Pop(S, t, o, stk, f) == LET x == DObj(S, t, o).fmt
                        IN IF x[stk] = <<>> THEN Died(S, "misuse")
                           ELSE [S EXCEPT !.th[t].do[o].fmt = [x EXCEPT ![f] = Last(x[stk]), ![stk] = Front(@)]]

\* The end of a thread: nothing of its state survives, except that the line that it left open is still open.
ThreadEnd(S, t) == [S EXCEPT !.th[t] = [TSD0(AllOff) EXCEPT !.alive = FALSE],
                            !.open = [o \in Objects |-> IF @[o].who = t THEN [@[o] EXCEPT !.who = -1] ELSE @[o]]]
\* A new thread starts from scratch.
ThreadNew(S, t) == [S EXCEPT !.th[t] = TSD0(AllOff)]

Quiet(S) == [s |-> S, out |-> <<>>]

\* r2 after r1
Then(r1, r2) == [s |-> r2.s, out |-> r1.out \o r2.out]

BeginAny(S, op) == CASE op.op = "B" -> Begin(S, op) [] op.op = "X" -> FatalBegin(S, op) [] OTHER -> ContBegin(S, op)

\* A complete statement without side effects in its data.
WholeOf(S, op) ==
  LET b == BeginAny(S, op) IN
  IF ~BeginOn(S, op) \/ b.s.dead # "no" THEN b
  ELSE LET p == PutData(b.s, op.t, op.s)
           e == End(p.s, op.t)
       IN Then(b, e)
Whole(S, op) == WholeOf(S, [op EXCEPT !.op = op.k])

\* list_channels_on()
RECURSIVE ListFrom(_, _, _, _)
ListFrom(S, t, o, i) ==
  IF i > Len(Visible) \/ S.dead # "no" THEN [s |-> S, out |-> <<>>]
  ELSE LET r == WholeOf(S, [op |-> "B", t |-> t, o |-> o, chs |-> <<"always">>, fl |-> {"noprefix"}, cont |-> FALSE, err |-> "",
                            s |-> DObj(S, t, o).fmt.margin \o Label(Visible[i])
                                  \o (IF S.th[t].chan[Visible[i]] < 0 THEN ": Enabled" ELSE ": Disabled")])
       IN Then(r, ListFrom(r.s, t, o, i + 1))
ListOn(S, t, o) == IF ObjOn(S, t, o) THEN ListFrom(S, t, o, 1) ELSE Quiet(S)

\* Mark: a marker that holds the indentation; Indent.
MarkBegin(S, t, m) == LET f == DObj(S, t, 0).fmt
                      IN [S EXCEPT !.th[t].do[0].fmt = [f EXCEPT !.ks = Append(@, f.marker),
                                     !.marker = @ \o Spaces(f.indent) \o m \o " ", !.indent = 0]]
MarkEnd(S, t, old) == LET p == Pop(S, t, 0, "ks", "marker")
                      IN IF p.dead # "no" THEN p ELSE [p EXCEPT !.th[t].do[0].fmt.indent = @ + old]

\* The state in which the scripts start, for thread t: everything on except OFF and ELFUTILS.
AllOnFor(S, t) == [S EXCEPT !.th[t].do = [o \in Objects |-> [@[o] EXCEPT !.off = -1]],
                            !.th[t].chan = [c \in Channels |-> IF c \in {"OFF", "ELFUTILS"} THEN 0 ELSE -1]]

\* One operation.  op.on is not consulted: whether a statement prints follows from the state.
Apply(S, op) ==
  LET t == op.t IN
  CASE op.op \in {"B", "X", "C", "F"} -> BeginAny(S, op)
    [] op.op = "D" -> Whole(S, op)
    [] op.op = "P" -> PutData(S, t, op.s)
    [] op.op = "E" -> End(S, t)
    [] op.op = "ooff" -> Quiet(ObjOff(S, t, op.o))
    [] op.op = "oon" -> Quiet(ObjOnce(S, t, op.o))
    [] op.op = "oforce" -> Quiet(ObjForce(S, t, op.o))
    [] op.op = "orestore" -> Quiet(ObjRestore(S, t, op.o))
    [] op.op = "coff" -> Quiet(ChOff(S, t, op.c))
    [] op.op = "con" -> Quiet(ChOn(S, t, op.c))
    [] op.op = "cforce" -> Quiet(ChForce(S, t, op.c))
    [] op.op = "crestore" -> Quiet(ChRestore(S, t, op.c))
    [] op.op = "set" -> Quiet(SetFmt(S, t, op.o, op.f, op.s))      \* margin, marker, con, coff
    [] op.op = "app" -> Quiet(SetFmt(S, t, op.o, op.f, DObj(S, t, op.o).fmt[op.f] \o op.s))
    [] op.op = "pre" -> Quiet(SetFmt(S, t, op.o, op.f, op.s \o DObj(S, t, op.o).fmt[op.f]))
    [] op.op = "indent" -> Quiet(SetFmt(S, t, op.o, "indent", op.n))
    [] op.op = "inc" -> Quiet(SetFmt(S, t, op.o, "indent", DObj(S, t, op.o).fmt.indent + op.n))
    [] op.op = "dec" -> LET i == DObj(S, t, op.o).fmt.indent
                        IN Quiet(SetFmt(S, t, op.o, "indent", IF op.n > i THEN 0 ELSE i - op.n))
    [] op.op = "pushm" -> Quiet(Push(S, t, op.o, "ms", "margin"))
    [] op.op = "popm" -> Quiet(Pop(S, t, op.o, "ms", "margin"))
    [] op.op = "pushk" -> Quiet(Push(S, t, op.o, "ks", "marker"))
    [] op.op = "popk" -> Quiet(Pop(S, t, op.o, "ks", "marker"))
    [] op.op = "afon" -> Quiet([S EXCEPT !.af[op.o] = @ + 1])
    [] op.op = "afoff" -> Quiet([S EXCEPT !.af[op.o] = @ - 1])
    [] op.op = "new" -> Quiet(ThreadNew(S, t))
    [] op.op = "join" -> Quiet(ThreadEnd(S, t))
    [] op.op = "allon" -> Quiet(AllOnFor(S, t))
    [] op.op = "list" -> ListOn(S, t, op.o)
    [] op.op = "query" -> Quiet(S)

\* Is op a meaningful call in state S?  (What users may do; detected misuse is included.)
NoFrameOf(S, t, o) == \A i \in DOMAIN S.th[t].frames : S.th[t].frames[i].o # o
TopHasFrame(S, t, o) == \E i \in DOMAIN S.th[t].frames : S.th[t].frames[i].o = o /\ S.th[t].frames[i].id = Top(S, t, o).id
Used(S, t, o) == DObj(S, t, o).stk # <<>>
Enabled(S, op) ==
  LET t == op.t  T == S.th[t]
      kind == IF op.op = "D" THEN op.k ELSE op.op
      cont == op.op \in {"B", "X", "C", "F", "D"} /\ op.cont
  IN
  /\ S.dead = "no"
  /\ op.op # "new" => T.alive
  /\ CASE kind \in {"B", "X"} -> TRUE
       \* Finishing a statement while its data is still being evaluated would destroy it.
       [] kind = "F" -> DObj(S, t, op.o).stk = <<>> \/ ~TopHasFrame(S, t, op.o) \/ DObj(S, t, op.o).muted > 0 \/ ~ObjOn(S, t, op.o)
       [] kind = "C" -> TRUE
       [] kind = "P" -> T.frames # <<>>
       [] kind = "E" -> CanEnd(S, t)
       [] kind = "oon" -> DObj(S, t, op.o).off >= 0
       [] kind = "orestore" -> DObj(S, t, op.o).forced # <<>>
       [] kind = "crestore" -> T.cforced[op.c] # <<>>
       [] kind \in {"indent", "dec"} -> ~Used(S, t, op.o)      \* an unbalanced change inside a statement is the user's
       [] kind = "inc" -> DObj(S, t, op.o).fmt.indent + op.n <= 40
       [] kind \in {"app", "pre"} -> Len(DObj(S, t, op.o).fmt[op.f]) < 30
       [] kind = "afoff" -> S.af[op.o] > 0
       [] kind = "new" -> ~T.alive
       [] kind = "join" -> t # 1 /\ T.frames = <<>>
       [] OTHER -> TRUE
=============================================================================
