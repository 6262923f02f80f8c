------------------------------ MODULE FatalMC ------------------------------
EXTENDS Fatal, Json
CONSTANTS Depth, EmitScripts, Progs
\* progs: what each thread still has to do; hist: the script.  sent: the messages that were delivered.
VARIABLES S, hist, progs, sent
vars == <<S, hist, progs, sent>>
Op(w, t) == [op |-> w, t |-> t, o |-> 0, n |-> t, fl |-> {}]
Fatal(t, kind) == [op |-> "fatal", t |-> t, o |-> 0, n |-> 10 + t, fl |-> {}, kind |-> kind, depth |-> 0]
OnO(op, o) == [op EXCEPT !.o = o]
With(op, fl) == [op EXCEPT !.fl = fl]
Nested(op, d) == [op EXCEPT !.depth = d]
\* What a thread can do, for the exhaustive part.
ProgsRace(t) == { <<Fatal(t, "core")>>, <<Fatal(t, "fatal")>>, <<Op("say", t), Fatal(t, "core")>>, <<Op("say", t)>>, <<Op("off", t), Fatal(t, "fatal"), Op("say", t)>>, <<Op("popmargin", t), Op("say", t)>>, <<>> }
ProgsObjects(t) == { <<OnO(Fatal(t, "core"), t % 2)>>, <<OnO(Fatal(t, "ufatal"), 1)>>, <<With(Fatal(t, "fatal"), {"cerr"})>>, <<OnO(Op("say", t), 1), With(Op("say", t), {"flush"})>> }
ProgsSingle(t) ==
  IF t # 1 THEN {<<>>}
  ELSE LET first == {<<>>, <<Op("off", t)>>, <<Op("coff", t)>>, <<Op("pushmargin", t)>>, <<Op("pushmarker", t)>>, <<Op("open", t)>>, <<With(Op("say", t), {"nonewline"})>>, <<Op("off", t), Op("off", t), Op("on", t)>>, <<Op("open", t), Op("fin", t)>>}
           last == {Fatal(t, "core"), Fatal(t, "fatal"), Nested(Fatal(t, "core"), 1), Nested(Fatal(t, "fatal"), 3), With(Fatal(t, "fatal"), {"nonewline"}), With(Fatal(t, "core"), {"error"}), With(Fatal(t, "fatal"), {"noprefix"}),
                    With(Fatal(t, "core"), {"nolabel"}), With(Fatal(t, "fatal"), {"blank", "cerr"}), OnO(Fatal(t, "fatal"), 1), Fatal(t, "ucore"), Nested(Fatal(t, "ufatal"), 1), With(Fatal(t, "ufatal"), {"blank"}), OnO(Fatal(t, "ucore"), 1)} \union
                   {Op(w, t) : w \in {"fin", "cont", "popmargin", "popmarker", "con", "longlabel", "longfatal", "restore", "crestore", "fatalcont", "recurse", "end"}}
       IN {p \o (IF x.op = "end" THEN <<x>> ELSE <<x, Op("say", t)>>) : p \in first, x \in last}
RECURSIVE Fits(_, _)
Fits(T, p) == IF p = <<>> THEN TRUE ELSE IF ~Enabled(T, Head(p)) THEN FALSE ELSE IF Misused(T, Head(p)) THEN TRUE ELSE Fits(After(T, Head(p)), Tail(p))
Init == S = Init0 /\ hist = <<>> /\ progs = [t \in Threads |-> <<>>] /\ sent = {}
Start == /\ hist = <<>>
         /\ \E p \in [Threads -> UNION {Progs[t] : t \in Threads}] :
              /\ \A t \in Threads : p[t] \in Progs[t] /\ (Fits(Thread0, p[t]) = TRUE)
              /\ progs' = p
              /\ hist' = <<[op |-> "par", t |-> 1, progs |-> [i \in 1..Cardinality(Threads) |-> p[i]]]>>
         /\ UNCHANGED <<S, sent>>
DoInvoke(t) == progs[t] # <<>> /\ CanInvoke(S, t, Head(progs[t])) /\ S' = Invoke(S, t, Head(progs[t])) /\ progs' = [progs EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<hist, sent>>
DoEffect(t) == CanEffect(S, t) /\ S' = Effect(S, t) /\ UNCHANGED <<progs, hist, sent>>
DoReturn(t) == CanReturn(S, t) /\ S' = Return(S, t) /\ UNCHANGED <<progs, hist, sent>>
DoDeliver(s) == S.ended = "" /\ S.buf[s] # <<>> /\ S' = Deliver(S, s) /\ sent' = sent \union {S.buf[s][i] : i \in DOMAIN S.buf[s]} /\ UNCHANGED <<progs, hist>>
DoClaim(t) == CanClaim(S, t) /\ S' = Claim(S, t) /\ UNCHANGED <<progs, hist, sent>>
DoEnd == CanEnd(S) /\ S' = End(S) /\ UNCHANGED <<progs, hist, sent>>
Next == Start \/ DoEnd \/ \E t \in Threads : DoInvoke(t) \/ DoEffect(t) \/ DoReturn(t) \/ DoClaim(t) \/ \E s \in Streams : DoDeliver(s)
Spec == Init /\ [][Next]_vars
EmitC == (EmitScripts /\ Len(hist') # Len(hist)) => PrintT("SCRIPT " \o ToJson(hist'))

\* Exactly one thread ends the process, and its message was delivered before.
OneOwner == Cardinality({t \in Threads : S.thr[t].ph = "ending"}) <= 1 /\ (S.ended # "" => S.owner # 0 /\ S.ended = Kind(S.thr[S.owner].cur))
Delivered == \A t \in Threads : S.thr[t].ph \in {"ending", "stuck"} /\ S.thr[t].cur.op = "fatal" => \A i \in 1..1 : Printed(S.thr[t], S.thr[t].cur)[i] \in sent
NeverReturns == [][\A t \in Threads : S.thr[t].ph \in {"wrote", "broken", "stuck", "ending"} => S'.thr[t].ph \in {"wrote", "broken", "stuck", "ending"}]_vars
OwnerStays == [][S.owner # 0 => S'.owner = S.owner]_vars
Final == [][S.ended # "" => S' = S]_vars

\* Random scripts: a part of one thread after the other, and then a part with all threads.
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
Pick(X) == RandomElement(Now(X))
\* With cerr_cf, the line of another thread would be terminated on the wrong stream (object 1 is not used with cerr_cf).
Flags(r, o) == (IF o = 1 /\ r % 7 < 2 THEN {"nonewline"} ELSE {}) \union (IF r % 5 = 0 THEN {"error"} ELSE {}) \union (IF r % 11 = 0 THEN {"noprefix"} ELSE IF r % 13 = 0 THEN {"nolabel"} ELSE IF r % 17 = 0 THEN {"blank"} ELSE {})
SayFlags(r, o) == (IF r % 3 = 0 THEN {"flush"} ELSE {}) \union Flags(r, o)
RandomOp(k) ==
  LET t == Pick(Threads)  r == Pick(1..40)  o == Pick(0..1)  x == Pick(1..2000)  n == 100 * Len(hist) + t
      B == [op |-> "say", t |-> t, o |-> o, n |-> n, fl |-> {}]
      D == [op |-> "fatal", t |-> t, o |-> o, n |-> n, fl |-> Flags(x, o) \union (IF o = 0 /\ Pick(1..3) = 1 THEN {"cerr"} ELSE {}), kind |-> Pick({"core", "fatal", "ucore", "ufatal"}), depth |-> IF Pick(1..3) = 1 THEN Pick(1..5) ELSE 0]
      As(w) == [B EXCEPT !.op = w]
  IN CASE r <= 12 -> [B EXCEPT !.fl = SayFlags(x, o)]
       [] r <= 14 -> D
       [] r <= 17 -> As("off")
       [] r <= 20 -> As("on")
       [] r <= 22 -> As("coff")
       [] r <= 24 -> As("con")
       [] r <= 26 -> As("open")
       [] r <= 29 -> As("fin")
       [] r <= 31 -> As("pushmargin")
       [] r <= 33 -> As("popmargin")
       [] r <= 35 -> As("pushmarker")
       [] r <= 37 -> As("popmarker")
       [] OTHER -> As(Pick({"fin", "cont", "con", "longlabel", "longfatal", "restore", "crestore", "fatalcont", "recurse", "end"}))
Fine(op) == Enabled(S.thr[op.t], op) /\ (Len(hist) < Depth - 1 => ~Misused(S.thr[op.t], op) /\ ~Dies(S.thr[op.t], op))
RECURSIVE Draw(_)
Draw(k) == LET op == RandomOp(k) IN IF k = 0 \/ Fine(op) THEN op ELSE Draw(k - 1)
\* A program of a thread that runs at the same time as others; it is known what the thread's state is, T.
RECURSIVE Prog(_, _, _, _)
Prog(T, t, i, len) ==
  LET r == Pick(1..10)  x == Pick(1..2000)  o == Pick(0..1)
      op == IF i < len THEN [op |-> "say", t |-> t, o |-> o, n |-> 1000 * i + 100 * Len(hist) + t, fl |-> SayFlags(x, o)]
            ELSE IF r <= 8 THEN [op |-> "fatal", t |-> t, o |-> o, n |-> 1000 * i + 100 * Len(hist) + t, fl |-> Flags(x, o) \union (IF o = 0 /\ Pick(1..3) = 1 THEN {"cerr"} ELSE {}), kind |-> Pick({"core", "fatal", "ucore", "ufatal"}), depth |-> IF Pick(1..3) = 1 THEN Pick(1..5) ELSE 0]
            ELSE [op |-> Pick({"popmargin", "longlabel", "longfatal", "restore", "recurse", "fatalcont"}), t |-> t, o |-> o, n |-> 0, fl |-> {}]
  IN IF i > len \/ ~Enabled(T, op) THEN <<>> ELSE <<op>> \o Prog(T, t, i + 1, len)
Last == LET kind == Pick(1..3)
        IN IF kind = 1 THEN Draw(60)
           ELSE [op |-> "par", t |-> 1, progs |-> [i \in 1..Cardinality(Threads) |-> Prog(S.thr[i], i, 1, IF kind = 2 THEN 1 ELSE Pick(0..3))]]
\* The effect of an operation that returns.
Done(op) == Return(Effect(Invoke(S, op.t, op), op.t), op.t)
SimNext == /\ Len(hist) < Depth
           /\ \E op \in {IF Len(hist) = Depth - 1 THEN Last ELSE Draw(60)} :
                /\ op.op # "par" => Fine(op)
                /\ hist' = Append(hist, op)
                /\ S' = IF Len(hist) = Depth - 1 THEN S ELSE Done(op)
           /\ UNCHANGED <<progs, sent>>
SimSpec == Init /\ [][SimNext]_vars
EmitEnd == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
View == <<S, progs, sent>>
Race3 == [t \in Threads |-> ProgsRace(t)]
Objects3 == [t \in Threads |-> ProgsObjects(t)]
Single == [t \in Threads |-> ProgsSingle(t)]
=============================================================================
