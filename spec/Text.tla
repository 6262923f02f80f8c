-------------------------------- MODULE Text --------------------------------
\* What the escaping helpers write for bytes, and the names of error numbers.
EXTENDS Integers, Sequences, TLC, Errno
Printables == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Hex == "0123456789ABCDEF"
At(s, i) == SubSeq(s, i, i)
Named == (7 :> "a") @@ (8 :> "b") @@ (9 :> "t") @@ (10 :> "n") @@ (11 :> "v") @@ (12 :> "f") @@ (13 :> "r") @@ (27 :> "e") @@ (92 :> "\\")
Char(b) == IF b \in DOMAIN Named THEN "\\" \o Named[b]
           ELSE IF b >= 32 /\ b <= 126 THEN At(Printables, b - 31)
           ELSE "\\x" \o At(Hex, b \div 16 + 1) \o At(Hex, (b % 16) + 1)
RECURSIVE Buf(_)
Buf(bs) == IF bs = <<>> THEN "" ELSE Char(Head(bs)) \o Buf(Tail(bs))

\* A reader that recovers the bytes; -1 for anything that was not written by Char.
Pos(s, c) == CHOOSE i \in 0..Len(s) : (i > 0 /\ At(s, i) = c) \/ (i = 0 /\ \A j \in 1..Len(s) : At(s, j) # c)
NamedOf(c) == {b \in DOMAIN Named : Named[b] = c}
RECURSIVE Decode(_)
Decode(t) == IF t = "" THEN <<>>
             ELSE IF At(t, 1) # "\\" THEN <<Pos(Printables, At(t, 1)) + 31>> \o Decode(SubSeq(t, 2, Len(t)))
             ELSE IF Len(t) >= 4 /\ At(t, 2) = "x" THEN <<(Pos(Hex, At(t, 3)) - 1) * 16 + Pos(Hex, At(t, 4)) - 1>> \o Decode(SubSeq(t, 5, Len(t)))
             ELSE IF Len(t) >= 2 /\ NamedOf(At(t, 2)) # {} THEN <<CHOOSE b \in NamedOf(At(t, 2)) : TRUE>> \o Decode(SubSeq(t, 3, Len(t)))
             ELSE <<-1>>

\* Error numbers.
Unknown == "UNKNOWN ERROR"
ErrorNames(n) == IF n = 0 THEN {"0"} ELSE IF n \in DOMAIN ErrnoNames /\ ErrnoNames[n] # {} THEN ErrnoNames[n]
                 ELSE IF n \in DOMAIN ErrnoNames THEN {Unknown, "EDEADLOCK", "EWOULDBLOCK"}   \* A hole in the numbers of the platform.
                 ELSE {Unknown}

\* State: what was written so far.
Init0 == ""
Apply(S, op) == CASE op.op \in {"char", "buf"} -> S \o Buf(op.b)
                  [] op.op = "raw" -> S \o op.s
                  [] OTHER -> S
=============================================================================
