--------------------------- MODULE DebugOutputMC ---------------------------
(***************************************************************************)
(* Exhaustive exploration of DebugOutput for small sets of operations      *)
(* ("menus"), with the properties stated as a monitor that reads the       *)
(* tokens that reach each stream, and generation of test scripts.          *)
(***************************************************************************)
EXTENDS DebugOutput, Json

CONSTANTS Menu, Depth, EmitScripts

VisibleDef == <<"AAA", "BBBBB", "DEBUG", "ELFUTILS", "LONGLABEL12", "NOTICE", "OFF", "SYSTEM", "WARNING">>

VARIABLES S, out, mon, hist
vars == <<S, out, mon, hist>>

Streams == {"s0", "s1", "cerr"}

-----------------------------------------------------------------------------
\* The monitor.  It knows nothing of the implementation's flags.
\*   line[st]  : the statement that owns the last, still open, line of the stream (0: none)
\*   pcs       : per unfinished statement: number of pieces put and seen, whether a <continued> is due
\*   over[id]  : statements that finished with nonewline_cf (and by which thread)
\*   bad       : first violation seen
Mon0 == [line |-> [st \in Streams |-> 0], pcs |-> [x \in {} |-> 0], free |-> [x \in {} |-> 0],
         shadow |-> [t \in Threads |-> [o \in Objects |-> <<>>]], bad |-> "none"]

Bad(m, b) == IF m.bad = "none" THEN [m EXCEPT !.bad = b] ELSE m

\* One token arrives on a stream, written by thread t.
MonTok(m, t, x) ==
  LET st == x.st  tk == x.tk  L == m.line[st]
      known == tk.id \in DOMAIN m.pcs
      p == m.pcs[tk.id]
      own(m1) == [m1 EXCEPT !.line[st] = tk.id]
      mine == L = 0 \/ L = tk.id \/ (L \in DOMAIN m.free /\ m.free[L] = t)
  IN CASE tk.k \in {"flush", "ret", "lock"} -> m
       [] tk.k = "nonl" -> IF L \in DOMAIN m.free /\ m.free[L] # t THEN [m EXCEPT !.line[st] = 0] ELSE Bad(m, "no newline mark without need")
       [] tk.k = "unf" -> IF L # 0 /\ L = tk.id /\ ~known /\ L \in DOMAIN m.free /\ m.free[L] = -1
                          THEN [m EXCEPT !.line[st] = 0]     \* its thread ended
                          ELSE IF ~known \/ ~(L = tk.id \/ (mine /\ p.put = 0)) THEN Bad(m, "unfinished mark without an open line")
                          ELSE [m EXCEPT !.line[st] = 0, !.pcs[tk.id].due = TRUE]
       [] tk.k = "coff" -> m
       [] tk.k = "cont" -> IF ~known \/ ~p.due THEN Bad(m, "continued mark without interruption")
                           ELSE own([m EXCEPT !.pcs[tk.id].due = FALSE])
       [] tk.k = "data" -> IF ~known THEN Bad(m, "data of an unknown statement")
                           ELSE IF ~mine THEN Bad(m, "data on the line of another statement")
                           ELSE IF p.due THEN Bad(m, "data resumed without continued mark")
                           ELSE IF tk.s # ToString(p.seen + 1) THEN Bad(m, "data lost, duplicated or out of order")
                           ELSE IF p.st # "" /\ p.st # st THEN Bad(m, "one statement on two streams")
                           ELSE own([m EXCEPT !.pcs[tk.id].seen = @ + 1, !.pcs[tk.id].st = st])
       [] tk.k = "nl" -> IF ~mine THEN Bad(m, "newline on the line of another statement")
                         ELSE IF p.due THEN Bad(m, "end without continued mark")
                         ELSE [m EXCEPT !.line[st] = 0]
       [] OTHER -> IF ~mine THEN Bad(m, "prefix on the line of another statement") ELSE own(m)

RECURSIVE MonToks(_, _, _)
MonToks(m, t, xs) == IF xs = <<>> THEN m ELSE MonToks(MonTok(m, t, Head(xs)), t, Tail(xs))

Trailing(sh) == Cardinality({i \in DOMAIN sh : \A j \in i..Len(sh) : ~sh[j]})

\* What the operation means for the monitor, before its output is looked at.
StartedIds(s1, s2) == s1.next .. (s2.next - 1)
AllStk(s, t) == UNION {{s.th[t].do[o].stk[i].id : i \in DOMAIN s.th[t].do[o].stk} : o \in Objects}

Restrict(f, D) == [x \in (DOMAIN f) \cap D |-> f[x]]

\* In the model the data of every piece is its number within its statement.
Numbered(op) == IF op.op = "D"
               THEN [op EXCEPT !.s = IF op.k \in {"C", "F"} /\ BeginOn(S, [op EXCEPT !.op = op.k]) /\ Used(S, op.t, op.o)
                                     THEN ToString(mon.pcs[Top(S, op.t, op.o).id].put + 1) ELSE "1"]
               ELSE IF op.op = "P" THEN [op EXCEPT !.s = ToString(mon.pcs[CurFrame(S, op.t).id].put + 1)]
               ELSE op

Kind(op) == IF op.op = "D" THEN op.k ELSE op.op

MonStep(m, s1, op, r) ==
  LET t == op.t
      k == Kind(op)
      s2 == r.s
      new == StartedIds(s1, s2)
      \* pieces put
      putid == IF op.op = "P" THEN {CurFrame(s1, t).id}
               ELSE IF op.op = "D" /\ BeginOn(s1, [op EXCEPT !.op = op.k]) /\ s2.dead # "misuse"
                    THEN (IF k \in {"C", "F"} THEN {Top(s1, t, op.o).id} ELSE new)
               ELSE IF op.op = "list" THEN new
               ELSE {}
      pcs1 == [id \in (DOMAIN m.pcs) \cup new |->
                 LET q == IF id \in new THEN [put |-> 0, seen |-> 0, due |-> FALSE, st |-> ""] ELSE m.pcs[id]
                 IN IF id \in putid THEN [q EXCEPT !.put = @ + 1] ELSE q]
      m1 == [m EXCEPT !.pcs = pcs1]
      \* list_channels_on() prints a statement per channel.
      m2 == MonToks(m1, t, IF op.op # "list" THEN r.out
                           ELSE [i \in DOMAIN r.out |-> IF r.out[i].tk.k = "data" /\ r.out[i].tk.id \in new THEN [r.out[i] EXCEPT !.tk.s = "1"] ELSE r.out[i]])
      gone == (AllStk(s1, t) \cup new) \ AllStk(s2, t)
      m3 == IF s2.dead = "no" /\ op.op # "join" /\ \E id \in gone : m2.pcs[id].seen # m2.pcs[id].put THEN Bad(m2, "finished but not written completely") ELSE m2
      lines == {m3.line[st] : st \in Streams}
      m4 == [m3 EXCEPT !.pcs = Restrict(@, (DOMAIN @) \ gone),
                       !.free = [id \in (((DOMAIN @) \cup gone) \cap lines) |-> IF id \in DOMAIN m3.free THEN m3.free[id] ELSE t]]
      \* A line that was left open by a thread that ended.
      m5 == IF op.op = "join" THEN [m4 EXCEPT !.free = [id \in DOMAIN @ |-> IF @[id] = t THEN -1 ELSE @[id]]] ELSE m4
      sh == IF k \in {"B"} /\ op.cont /\ ObjOn(s1, t, op.o)
            THEN [m5 EXCEPT !.shadow[t][op.o] = Append(@, AnyOn(s1, t, op.chs))]
            ELSE IF k = "F" /\ ObjOn(s1, t, op.o) /\ m5.shadow[t][op.o] # <<>>
            THEN [m5 EXCEPT !.shadow[t][op.o] = Front(@)]
            ELSE IF k \in {"join", "new"} THEN [m5 EXCEPT !.shadow[t] = [o \in Objects |-> <<>>]]
            ELSE m5
  IN sh

-----------------------------------------------------------------------------
\* Menus.

St(op, t, o, chs, fl, cont) == [op |-> op, t |-> t, o |-> o, chs |-> chs, fl |-> fl, cont |-> cont, err |-> "ENOENT", s |-> "", k |-> op]
B(t, o, chs, fl, cont) == St("B", t, o, chs, fl, cont)
W(k, t, o, chs, fl, cont) == [St("D", t, o, chs, fl, cont) EXCEPT !.k = k]
D(t, o, chs, fl, cont) == W("B", t, o, chs, fl, cont)
C(t, o, fl) == W("C", t, o, <<>>, fl, FALSE)
F(t, o, fl) == W("F", t, o, <<>>, fl, FALSE)
P(t) == [op |-> "P", t |-> t, s |-> ""]
E(t) == [op |-> "E", t |-> t]
Ob(op, t, o) == [op |-> op, t |-> t, o |-> o]
Ch(op, t, c) == [op |-> op, t |-> t, c |-> c]
SetF(t, o, f, s) == [op |-> "set", t |-> t, o |-> o, f |-> f, s |-> s]
Th(op, t) == [op |-> op, t |-> t]

\* Nesting, one thread, one object
MenuNest == { B(1, 0, <<"AAA">>, {}, FALSE), D(1, 0, <<"WARNING">>, {}, FALSE), B(1, 0, <<"OFF">>, {}, TRUE), P(1), E(1),
              B(1, 0, <<"OFF", "AAA">>, {"nonewline"}, FALSE), D(1, 0, <<"AAA">>, {"error", "nolabel"}, FALSE) }
\* Continued output, one thread
MenuCont == { D(1, 0, <<"AAA">>, {}, TRUE), B(1, 0, <<"AAA">>, {}, TRUE), D(1, 0, <<"WARNING">>, {}, FALSE), C(1, 0, {}), F(1, 0, {}), P(1), E(1),
              D(1, 0, <<"OFF">>, {}, TRUE), St("C", 1, 0, <<>>, {}, FALSE) }
\* The same, with flushing and open lines
MenuContFlush == { D(1, 0, <<"AAA">>, {"flush"}, TRUE), B(1, 0, <<"AAA">>, {}, TRUE), D(1, 0, <<"WARNING">>, {}, FALSE), C(1, 0, {"flush"}), F(1, 0, {}), E(1),
              D(1, 0, <<"AAA">>, {"noprefix", "flush"}, TRUE), D(1, 0, <<"WARNING">>, {"nonewline"}, FALSE), F(1, 0, {"nonewline"}) }
MenuSwitch == { Ob("ooff", 1, 0), Ob("oon", 1, 0), Ob("oforce", 1, 0), Ob("orestore", 1, 0), Ch("coff", 1, "AAA"), Ch("con", 1, "AAA"),
                Ch("cforce", 1, "AAA"), Ch("crestore", 1, "AAA"),
                D(1, 0, <<"AAA">>, {}, FALSE), D(1, 0, <<"AAA", "WARNING">>, {}, FALSE), D(1, 0, <<"always">>, {}, FALSE) }
MenuSwitchCont == { Ob("ooff", 1, 0), Ob("oon", 1, 0), Ch("coff", 1, "AAA"), Ch("con", 1, "AAA"), D(1, 0, <<"AAA">>, {}, TRUE), B(1, 0, <<"AAA">>, {}, FALSE),
                C(1, 0, {}), F(1, 0, {}), E(1) }
\* Two threads, one object, open lines
MenuThreads == { D(1, 0, <<"AAA">>, {"flush"}, TRUE), C(1, 0, {"flush"}), F(1, 0, {}), D(1, 0, <<"AAA">>, {"nonewline"}, FALSE), D(1, 0, <<"AAA">>, {}, FALSE),
                 D(2, 0, <<"AAA">>, {"flush"}, TRUE), C(2, 0, {"flush"}), F(2, 0, {}), D(2, 0, <<"AAA">>, {"nonewline"}, FALSE) }
MenuThreadEnds == { D(1, 0, <<"AAA">>, {"flush"}, TRUE), F(1, 0, {"nonewline"}), D(1, 0, <<"AAA">>, {}, FALSE),
                 D(2, 0, <<"always">>, {"flush"}, TRUE), F(2, 0, {"nonewline"}), D(2, 0, <<"always">>, {"nonewline"}, FALSE), Th("join", 2), Th("new", 2), Ob("oon", 2, 0) }
\* Parts without any text.
MenuEmpty == { D(1, 0, <<"AAA">>, {"flush"}, TRUE), St("F", 1, 0, <<>>, {"nonewline"}, FALSE), St("C", 1, 0, <<>>, {"flush"}, FALSE), E(1), B(1, 0, <<"AAA">>, {"noprefix", "nonewline"}, FALSE),
                 B(1, 0, <<"AAA">>, {"noprefix", "flush"}, TRUE), D(2, 0, <<"AAA">>, {}, FALSE), D(2, 0, <<"AAA">>, {"nonewline"}, FALSE) }
MenuObjects == { D(1, 0, <<"AAA">>, {"flush"}, TRUE), F(1, 0, {}), D(1, 1, <<"AAA">>, {"nonewline"}, FALSE), B(1, 1, <<"AAA">>, {}, TRUE), D(1, 1, <<"AAA">>, {}, FALSE), F(1, 1, {}), E(1), Ob("ooff", 1, 1), Ob("oon", 1, 1),
                 B(1, 0, <<"AAA">>, {}, FALSE) }
MenuFlush == { Ob("afon", 1, 0), Ob("afoff", 1, 0), B(1, 0, <<"AAA">>, {}, FALSE), B(1, 0, <<"AAA">>, {}, TRUE), D(1, 0, <<"AAA">>, {"flush"}, FALSE), D(1, 0, <<"AAA">>, {}, FALSE), C(1, 0, {}), F(1, 0, {}), E(1) }
MenuFlush2 == { Ob("afon", 2, 0), Ob("afoff", 2, 0), B(1, 0, <<"AAA">>, {}, FALSE), D(1, 0, <<"AAA">>, {"nonewline"}, TRUE), D(1, 0, <<"AAA">>, {}, FALSE), C(1, 0, {}), F(1, 0, {}), E(1), D(2, 0, <<"AAA">>, {}, FALSE) }
MenuCerr == { D(1, 0, <<"AAA">>, {"cerr"}, TRUE), B(1, 0, <<"AAA">>, {"cerr"}, FALSE), B(1, 0, <<"AAA">>, {}, FALSE), D(1, 0, <<"AAA">>, {}, TRUE), D(1, 0, <<"AAA">>, {"cerr"}, FALSE), D(1, 0, <<"AAA">>, {}, FALSE), C(1, 0, {}), F(1, 0, {}), E(1) }
MenuFatal == { W("X", 1, 0, <<"core">>, {}, FALSE), W("X", 1, 0, <<"fatal">>, {"nonewline"}, FALSE), B(1, 0, <<"AAA">>, {}, FALSE), D(1, 0, <<"AAA">>, {}, TRUE), E(1), C(1, 0, {}), F(1, 0, {}), Ob("ooff", 1, 0) }

\* The strings of several threads and debug objects
Own == {<<1, 0>>, <<1, 1>>, <<2, 0>>}
Mine(p) == IF p = <<1, 0>> THEN "a " ELSE IF p = <<1, 1>> THEN "b " ELSE "c "
MenuMarkers == UNION { {SetF(p[1], p[2], "marker", Mine(p)), Ob("pushk", p[1], p[2]), Ob("popk", p[1], p[2])} : p \in Own }
MenuMargins == UNION { {SetF(p[1], p[2], "margin", Mine(p)), Ob("pushm", p[1], p[2]), Ob("popm", p[1], p[2])} : p \in Own }
MenuColors == UNION { {SetF(p[1], p[2], "con", "<"), SetF(p[1], p[2], "coff", ">"), Ob("ooff", p[1], p[2]), Ob("oforce", p[1], p[2])} : p \in Own }
              \cup {Ch("coff", 1, "AAA"), Ch("con", 1, "AAA"), Ch("coff", 2, "AAA"), Ch("cforce", 2, "AAA"), D(2, 1, <<"AAA">>, {"nonewline"}, FALSE)}
\* Changes of the strings while statements are not finished
MenuFormat == { SetF(1, 0, "margin", "m "), SetF(1, 0, "marker", "# "), SetF(1, 0, "con", "<"), SetF(1, 0, "coff", ">"), SetF(1, 0, "con", ""), SetF(1, 0, "coff", ""),
                D(1, 0, <<"AAA">>, {"flush"}, TRUE), D(1, 0, <<"WARNING">>, {"nonewline"}, FALSE), B(1, 0, <<"AAA">>, {}, TRUE), C(1, 0, {}), F(1, 0, {}), E(1) }
MenuFormat2 == { SetF(1, 0, "con", "<"), SetF(1, 0, "coff", ">"), SetF(2, 0, "coff", "}"), SetF(2, 0, "margin", "m "), SetF(1, 0, "coff", ""),
                D(1, 0, <<"AAA">>, {"flush"}, TRUE), C(1, 0, {"flush"}), F(1, 0, {}), D(1, 0, <<"AAA">>, {"nonewline"}, FALSE), D(2, 0, <<"AAA">>, {"flush"}, TRUE), F(2, 0, {}) }

\* Everything: for random simulation.  One operation is drawn at random (reproducibly).
AllChs == { <<"AAA">>, <<"AAA">>, <<"BBBBB">>, <<"OFF">>, <<"OFF", "AAA">>, <<"BBBBB", "AAA">>, <<"always">>, <<"always", "AAA">>, <<"WARNING">>, <<"LONGLABEL12">>, <<"NOTICE", "OFF", "BBBBB">> }
FewFlags == { {}, {}, {"flush"}, {"nonewline"}, {"noprefix"}, {"nolabel"}, {"bmargin"}, {"blabel"}, {"bmarker"}, {"cerr"}, {"wait"}, {"error"},
              {"flush", "error"}, {"nonewline", "flush"}, {"noprefix", "nonewline"}, {"bmargin", "blabel", "bmarker"}, {"cerr", "flush"}, {"error", "nolabel", "bmargin"},
              {"noprefix", "flush", "error"}, {"cerr", "wait"}, {"nolabel", "bmarker"}, {"wait", "nonewline"}, {"blabel", "error"}, {"nonewline", "error"} }
\* cerr_cf shares a stream with other threads and objects: see MenuCerr for that.
Flagsets(o) == {fl \in FewFlags : "cerr" \in fl => (o = 0 /\ Threads = {1})}
Texts == { "m ", "<x> ", "", "#", "| ", "= " }
AllErr == DOMAIN ErrText
PieceFlags == { {}, {"flush"}, {"nonewline"}, {"error"}, {"noprefix"}, {"wait"} }
Pick(x) == RandomElement(x)
\* The parameter keeps TLC from evaluating this only once.
RandomOp(n) ==
  LET t == Pick(Threads)  o == Pick(Objects)  r == Pick(1..100)
  IN CASE r <= 22 -> [D(t, o, Pick(AllChs), Pick(Flagsets(o)), FALSE) EXCEPT !.err = Pick(AllErr)]
       [] r <= 34 -> [B(t, o, Pick(AllChs), Pick(Flagsets(o)), FALSE) EXCEPT !.err = Pick(AllErr)]
       [] r <= 40 -> [D(t, o, Pick(AllChs), Pick(Flagsets(o)), TRUE) EXCEPT !.err = Pick(AllErr)]
       [] r <= 44 -> [B(t, o, Pick(AllChs), Pick(Flagsets(o)), TRUE) EXCEPT !.err = Pick(AllErr)]
       [] r <= 50 -> [C(t, o, Pick(PieceFlags)) EXCEPT !.err = Pick(AllErr)]
       [] r <= 57 -> [F(t, o, Pick(PieceFlags)) EXCEPT !.err = Pick(AllErr)]
       [] r <= 62 -> P(t)
       [] r <= 74 -> E(t)
       [] r <= 77 -> Ob(Pick({"ooff", "oon"}), t, o)
       [] r <= 78 -> Ob(Pick({"oforce", "orestore"}), t, o)
       [] r <= 81 -> Ch(Pick({"coff", "con"}), t, Pick({"AAA", "BBBBB", "WARNING"}))
       [] r <= 82 -> Ch(Pick({"cforce", "crestore"}), t, Pick({"AAA", "BBBBB", "OFF"}))
       [] r <= 86 -> [op |-> Pick({"set", "app", "pre"}), t |-> t, o |-> o, f |-> Pick({"margin", "marker", "con", "coff"}), s |-> Pick(Texts)]
       [] r <= 88 -> [op |-> Pick({"indent", "inc", "dec"}), t |-> t, o |-> o, n |-> Pick(0..7)]
       [] r <= 91 -> Ob(Pick({"pushm", "popm", "pushk", "popk"}), t, o)
       [] r <= 93 -> Ob(Pick({"afon", "afoff"}), t, o)
       [] r <= 94 -> IF t = 1 THEN Ob("list", t, o) ELSE Th(Pick({"join", "new"}), t)
       [] r <= 95 -> Ob("list", t, o)
       [] OTHER -> Ob("query", t, o)
\* Misuse ends the program: keep that rare.
Harmless(op) == LET r == Apply(S, Numbered(op)) IN r.s.dead = "no" \/ (Len(hist) > 10 /\ RandomElement(1..10) = 1)
RECURSIVE Draw(_)
Draw(n) == LET op == RandomOp(n) IN IF n = 0 \/ (Enabled(S, op) /\ Harmless(op)) THEN op ELSE Draw(n - 1)
-----------------------------------------------------------------------------
\* Everything is on in all threads, except two channels: the scripts start with an "allon" for each thread.
AllOn == [Init0 EXCEPT !.th = [t \in Threads |-> AllOnFor(Init0, t).th[t]]]
Init == S = AllOn /\ out = <<>> /\ mon = Mon0 /\ hist = <<>>

Do(op0) == /\ Len(hist) < Depth
           /\ Enabled(S, op0)
           /\ LET op == Numbered(op0)
                  r == Apply(S, op)
              IN /\ S' = r.s
                 /\ out' = r.out
                 /\ mon' = MonStep(mon, S, op, r)
                 /\ hist' = Append(hist, op)

\* Named per kind of operation, for coverage.
Statement == \E op \in Menu : Kind(op) \in {"B"} /\ Do(op)
Continue == \E op \in Menu : Kind(op) \in {"C", "F"} /\ Do(op)
Fatal == \E op \in Menu : Kind(op) \in {"X"} /\ Do(op)
Data == \E op \in Menu : Kind(op) \in {"P"} /\ Do(op)
Finish == \E op \in Menu : Kind(op) \in {"E"} /\ Do(op)
Switch == \E op \in Menu : Kind(op) \in {"ooff", "oon", "oforce", "orestore", "coff", "con", "cforce", "crestore"} /\ Do(op)
Format == \E op \in Menu : Kind(op) \in {"set", "app", "pre", "indent", "inc", "dec", "pushm", "popm", "pushk", "popk"} /\ Do(op)
Flush == \E op \in Menu : Kind(op) \in {"afon", "afoff"} /\ Do(op)
Thread == \E op \in Menu : Kind(op) \in {"new", "join"} /\ Do(op)
List == \E op \in Menu : Kind(op) \in {"list", "query"} /\ Do(op)
Next == Statement \/ Continue \/ Fatal \/ Data \/ Finish \/ Switch \/ Format \/ Flush \/ Thread \/ List

Spec == Init /\ [][Next]_vars

\* Random scripts (-simulate): one operation per step.
SimNext == \E op \in {Draw(30)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars


\* Ids do not matter when nothing is open.
Idle == S.dead = "no" /\ \A t \in Threads : S.th[t].frames = <<>> /\ \A o \in Objects : S.th[t].do[o].stk = <<>> /\ S.open[o] = NoOpen
View == IF Idle THEN <<[S EXCEPT !.next = 1], mon.bad>> ELSE <<S, mon>>

EmitC == EmitScripts => PrintT("SCRIPT " \o ToJson(hist'))

\* In a simulation the script is printed at its end.
EmitEnd == (Len(hist') = Depth \/ S'.dead # "no") => PrintT("SCRIPT " \o ToJson(hist'))

-----------------------------------------------------------------------------
\* Properties

\* Every piece of every statement reaches its stream exactly once and in order, no line mixes statements, every
\* interruption is marked and every resumption announced.
NothingWrong == mon.bad = "none"

SimBad == NothingWrong

\* A continued statement that was off when it started is silent up to its own finish; the others are not.
SilentIffOff ==
  S.dead = "no" => \A t \in Threads : \A o \in Objects :
    LET sh == mon.shadow[t][o]  d == S.th[t].do[o]
    IN /\ d.muted = Trailing(sh)
       /\ (d.muted = 0) = (sh = <<>> \/ Last(sh))

\* Nesting indents by 4 per level, and the indentation is restored.
Indentation ==
  S.dead = "no" => \A t \in Threads : \A o \in Objects :
    LET d == S.th[t].do[o]
    IN d.fmt.indent % 4 = 0 /\ (d.stk = <<>> => d.fmt.indent = 0) /\
       \A i \in DOMAIN d.stk : LET ind == SelectSeq(d.stk[i].pfx, LAMBDA x : x.k = "indent")
                               IN (IF ind = <<>> THEN 0 ELSE Len(ind[1].s)) \in {0, 4 * (i - 1)}

\* Without open statements nothing is pending and everything written ended on a newline, or was left open knowingly.
QuietWhenIdle ==
  S.dead = "no" => \A o \in Objects : S.open[o].who # 0 =>
    (S.open[o].id # 0 => S.open[o].who = -1 \/ \E i \in DOMAIN S.th[S.open[o].who].do[o].stk :
                             S.th[S.open[o].who].do[o].stk[i].id = S.open[o].id)

\* No action of a thread changes the state of another one.
Private == [][\A t \in Threads : (hist' # hist /\ Last(hist').t # t) =>
                 /\ S'.th[t].chan = S.th[t].chan
                 /\ \A o \in Objects : LET a == S.th[t].do[o]  b == S'.th[t].do[o]
                                       IN a.off = b.off /\ a.fmt = b.fmt /\ a.muted = b.muted /\ a.saved = b.saved
                                          /\ DOMAIN a.stk = DOMAIN b.stk
                                          /\ \A i \in DOMAIN a.stk : a.stk[i].pend = b.stk[i].pend]_vars
\* ... nor of another debug object.
PrivateObj == [][\A o \in Objects : (hist' # hist /\ "o" \in DOMAIN Last(hist') /\ Last(hist').op # "join" /\ Last(hist').o # o
                                     /\ Last(hist').op \notin {"P", "E", "new"}) =>
                 S'.open[o] = S.open[o] /\ \A t \in Threads : S'.th[t].do[o] = S.th[t].do[o]]_vars

\* A statement (or piece) that asked for a flush has been flushed when it ends, and nothing else is flushed.
HasFlush(o) == \E i \in DOMAIN o : o[i].tk.k = "flush"
EndsSomething == hist' # hist /\ (Last(hist').op = "E" \/ Last(hist').op = "D")
WantsFlush ==
  LET op == Last(hist') IN
  IF op.op = "E" THEN LET f == CurFrame(S, op.t)  st == Top(S, op.t, f.o)
                      IN S.af[f.o] > 0 \/ "flush" \in st.flags \/ (("wait" \in st.flags \/ st.ends # "no") /\ (~st.cont \/ st.fin))
  ELSE BeginOn(S, [op EXCEPT !.op = op.k]) /\ S'.dead # "misuse" /\
       (S.af[op.o] > 0 \/ "flush" \in op.fl
        \/ op.k = "X" \/ (op.k = "B" /\ "wait" \in op.fl /\ ~op.cont)
        \/ (op.k = "C" /\ "flush" \in Top(S, op.t, op.o).flags)
        \/ (op.k = "F" /\ ({"flush", "wait"} \cap (Top(S, op.t, op.o).flags \cup op.fl)) # {}))
FlushExactly == [][(EndsSomething /\ S'.dead # "misuse") => (HasFlush(out') = WantsFlush /\ (HasFlush(out') => Last(out').tk.k = "flush"))]_vars
FlushOnlyAtEnds == [][HasFlush(out') => (EndsSomething \/ Last(hist').op = "list")]_vars
\* Nothing of an ended (or flushed) statement is kept back.
NothingPendingAfterFlush ==
  [][(EndsSomething /\ HasFlush(out') /\ S'.dead = "no" /\ Last(hist').op = "D" /\ Last(hist').k \in {"C"})
      => Top(S', Last(hist').t, Last(hist').o).pend = <<>>]_vars

\* Output only from statements that are on.
OnlyIfOn == [][(hist' # hist /\ Last(hist').op = "D" /\ Last(hist').k = "B") =>
                ((out' # <<>>) => (S.th[Last(hist').t].do[Last(hist').o].off < 0 /\ AnyOn(S, Last(hist').t, Last(hist').chs)))]_vars
=============================================================================
