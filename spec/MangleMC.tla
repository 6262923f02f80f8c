------------------------------ MODULE MangleMC ------------------------------
(***************************************************************************)
(* Builds types and template arguments on a stack.  Of every stack that is  *)
(* reached, Obs(S) is a list of declarations that are made of them; their   *)
(* names are what the driver demangles.                                     *)
(***************************************************************************)
EXTENDS Mangle, Json, FiniteSets
CONSTANTS Depth, EmitScripts, BuiltinsUsed, NamesUsed, LitsUsed, WrapsUsed, OpsUsed, MaxStack, Families, Mutate
VARIABLES S, hist
vars == <<S, hist>>

NameTable == [A |-> Id("A"), B |-> Id("Bee"), N |-> InN(Id("N"), Id("B")), v |-> InN(Std, Id("vector")), a |-> Ab("a"), b |-> Ab("b"), s |-> Ab("s"), i |-> Ab("i"), d |-> Ab("d"), o |-> Ab("o"),
              g |-> InN(Id("_GLOBAL__N_1"), Id("C")), G |-> InN(Id("_GLOBAL__N__ZN1A1fEv"), Id("D")), l |-> Loc(Fn(Id("f"), "", Nil, <<B("v")>>), Id("L")),
              m |-> LocD(Fn(InN(Id("A"), Id("m")), "K", Nil, <<W("R", Q("K", Id("A")))>>), Id("L"), "_0"), x |-> InN(InN(Id("N"), Id("M")), Id("x_1")), L |-> Id("aVeryLongNameOfAClass_0123456789")]
LitTable == [i0 |-> Lit(B("i"), "0"), i3 |-> Lit(B("i"), "3"), in |-> Lit(B("i"), "n7"), j |-> Lit(B("j"), "42"), b0 |-> Lit(B("b"), "0"), b1 |-> Lit(B("b"), "1"), c |-> Lit(B("c"), "65"),
             l |-> Lit(B("l"), "n1"), y |-> Lit(B("y"), "18446744073709551615"), E |-> Lit(Id("E"), "2"), En |-> Lit(InN(Id("N"), Id("E")), "n2"),
             d |-> Lit(B("d"), "3ff0000000000000"), D |-> Lit(B("d"), "c028ae147ae147ae"), f |-> Lit(B("f"), "3eaaaaab"), F |-> Lit(B("f"), "bf800000"), e |-> Lit(B("e"), "00000000000000004000c90fdaa22168"),
             x |-> Ext(Data(Id("x"), "")), h |-> Un("ad", Ext(Fn(Id("h"), "", Nil, <<B("i")>>))), H |-> Un("ad", Ext(Fn(InN(Id("A"), Id("h")), "K", Nil, <<W("P", Id("A"))>>))),
             p |-> Bi("pl", Lit(B("i"), "1"), Lit(B("i"), "2")), g |-> Bi("gt", Lit(B("i"), "1"), Lit(B("i"), "2")), q |-> Tri("qu", Lit(B("b"), "1"), Lit(B("i"), "1"), Lit(B("i"), "2")),
             z |-> Szt(Id("A")), Z |-> Szx(Lit(B("i"), "1")), k |-> Cast(B("c"), Lit(B("i"), "1")), s |-> Sr(Id("A"), Id("v"))]

IsT(t) == ~IsExpr(t)
IsClass(t) == t.k \in {"id", "in", "tm", "ab", "loc"}
IsRef(t) == t.k = "w" /\ t.c = "R"
IsFun(t) == t.k = "F" \/ (t.k = "q" /\ t.t.k = "F")
\* Can be a parameter, or a member of a class.
IsParam(t) == IsT(t) /\ t # B("v") /\ ~IsFun(t) /\ t.k # "A"
RECURSIVE Height(_)
RECURSIVE HeightSeq(_)
HeightSeq(a) == IF a = <<>> THEN 0 ELSE LET h == Height(a[1])
                                           r == HeightSeq(Tail(a)) IN IF h > r THEN h ELSE r
Height(t) == CASE t.k \in {"w", "q", "A", "U", "cx", "lit", "szt", "cast", "sr"} -> 1 + Height(t.t)
               [] t.k = "M" -> 1 + HeightSeq(<<t.cl, t.t>>)
               [] t.k = "F" -> 1 + HeightSeq(Append(t.a, t.r))
               [] t.k = "tm" -> 1 + HeightSeq(Append(t.a, t.p))
               [] t.k = "in" -> 1 + Height(t.p)
               [] OTHER -> 1
Top == S[Len(S)]
Below(j) == S[Len(S) - j]
Replace(n, x) == Append(SubSeq(S, 1, Len(S) - n), x)
CanWrap(x, t) ==
  /\ IsT(t) /\ Height(t) < 8
  /\ CASE x = "P" -> ~IsRef(t) /\ (t.k # "q" \/ t.t.k # "F")
       [] x = "R" -> ~IsRef(t) /\ t # B("v") /\ ~(t.k = "q" /\ (t.t.k = "F" \/ t.t = B("v")))
       [] x \in {"K", "V", "VK"} -> ~IsRef(t) /\ t.k \notin {"F", "A", "q"}
       [] x \in {"r", "rK", "rVK"} -> t.k = "w" /\ t.c = "P"
       [] x \in {"A3", "A0"} -> ~IsRef(t) /\ ~IsFun(t) /\ t \notin {B("v"), B("z")} /\ ~(t.k = "q" /\ t.t = B("v")) /\ ~(t.k = "A" /\ t.n.k = "none")
       [] x = "A_" -> ~IsRef(t) /\ ~IsFun(t) /\ t \notin {B("v"), B("z")} /\ ~(t.k = "q" /\ t.t = B("v")) /\ ~(t.k = "A" /\ t.n.k = "none")
       [] x = "U" -> t.k \in {"w", "id", "b"} /\ ~IsRef(t)
       [] x \in {"C", "G"} -> t.k = "b" /\ t.c \in {"d", "f", "e"}
Wrapped(x, t) == CASE x \in {"P", "R"} -> W(x, t) [] x = "A3" -> Arr(Num("3"), t) [] x = "A0" -> Arr(Num("12"), t) [] x = "A_" -> Arr(NoBound, t)
                   [] x = "U" -> U("vendor", t) [] x \in {"C", "G"} -> Cx(x, t) [] OTHER -> Q(x, t)
ArgsBelow(n) == [j \in 1..n |-> Below(n + 1 - j)]
Enabled1(o, x) ==
  CASE o \in {"b", "n", "l"} -> Len(S) < MaxStack
    [] o = "w" -> Len(S) > 0 /\ CanWrap(x, Top)
    [] o = "i" -> Len(S) > 0 /\ IsClass(Top) /\ Top.k # "loc" /\ Height(Top) < 8 /\ (Top.k # "ab" \/ Top.c \in {"s", "i", "o", "d"})
    [] o = "t" -> LET n == IF x = "1" THEN 1 ELSE 2 IN Len(S) > n /\ Top.k \in {"id", "in", "ab"} /\ (Top.k # "ab" \/ Top.c \in {"a", "b"}) /\ \A j \in 1..n : Height(Below(j)) < 8
    [] o = "f" -> LET n == CASE x \in {"0", "z"} -> 0 [] x \in {"1", "y", "e"} -> 1 [] OTHER -> 2 IN Len(S) > n /\ IsT(Top) /\ Top.k # "A" /\ ~IsFun(Top) /\ \A j \in 1..n : IsParam(Below(j)) /\ Height(Below(j)) < 8
    [] o = "m" -> Len(S) > 1 /\ IsClass(Top) /\ IsT(Below(1)) /\ ~IsRef(Below(1)) /\ Below(1) # B("v") /\ ~(Below(1).k = "q" /\ Below(1).t = B("v")) /\ Height(Below(1)) < 8 /\ (x = "" \/ Below(1).k = "F") /\ ~(Below(1).k = "F" /\ Below(1).y) /\ ~(Below(1).k = "q" /\ Below(1).t.k = "F" /\ Below(1).t.y)
    [] o = "d" -> Len(S) < MaxStack /\ Len(S) >= (IF x = "1" THEN 1 ELSE 2)
    [] o = "x" -> Len(S) > 0 /\ IsParam(Top) /\ Height(Top) < 8
    [] o = "q" -> Len(S) > 0 /\ Top.k = "F"
Result(o, x) ==
  CASE o = "b" -> Append(S, B(x))
    [] o = "n" -> Append(S, NameTable[x])
    [] o = "l" -> Append(S, LitTable[x])
    [] o = "w" -> Replace(1, Wrapped(x, Top))
    [] o = "i" -> Replace(1, InN(Top, Id(x)))
    [] o = "t" -> LET n == IF x = "1" THEN 1 ELSE 2 IN Replace(n + 1, Tm(Top, ArgsBelow(n)))
    [] o = "f" -> LET n == CASE x \in {"0", "z"} -> 0 [] x \in {"1", "y", "e"} -> 1 [] OTHER -> 2
                      a == IF x = "z" THEN <<B("z")>> ELSE IF n = 0 THEN <<B("v")>> ELSE IF x = "e" THEN Append(ArgsBelow(n), B("z")) ELSE ArgsBelow(n)
                  IN Replace(n + 1, F(x = "y", Top, a))
    [] o = "m" -> Replace(2, M(Top, IF x = "" THEN Below(1) ELSE Q(x, Below(1))))
    [] o = "d" -> Append(S, Below(IF x = "1" THEN 0 ELSE 1))
    [] o = "x" -> Replace(1, Un("ad", Ext(Fn(Id("h"), "", Nil, <<Top>>))))
    [] o = "q" -> Replace(1, Q(x, Top))
Alphabet == {<<"b", x>> : x \in BuiltinsUsed} \cup {<<"n", x>> : x \in NamesUsed} \cup {<<"l", x>> : x \in LitsUsed} \cup {<<"w", x>> : x \in WrapsUsed}
            \cup ({<<"i", "in">>, <<"t", "1">>, <<"t", "2">>, <<"f", "0">>, <<"f", "1">>, <<"f", "2">>, <<"f", "y">>, <<"f", "e">>, <<"f", "z">>, <<"m", "">>, <<"m", "K">>, <<"d", "1">>, <<"d", "2">>,
                    <<"x", "">>, <<"q", "K">>, <<"q", "V">>} \cap ({"i", "t", "f", "m", "d", "x", "q"} \X {"in", "1", "2", "0", "y", "e", "z", "", "K", "V"}))
Init == S = <<>> /\ hist = <<>>
Usable == {a \in Alphabet : (a[1] \notin {"i", "t", "f", "m", "d", "x", "q"} \/ a[1] \in OpsUsed) /\ Enabled1(a[1], a[2])}
Do(a) == Len(hist) < Depth /\ S' = Result(a[1], a[2]) /\ hist' = Append(hist, a[1])
Next == \E a \in Usable : Do(a)
Spec == Init /\ [][Next]_vars
View == S
EmitC == TRUE
EmitEnd == TRUE
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
\* First the kind of operation, then which one.
RandomOp == LET k == RandomElement(Now({a[1] : a \in Usable})) IN RandomElement({a \in Usable : a[1] = k})
SimNext == IF Len(hist) < Depth /\ Usable # {} THEN \E a \in {RandomOp} : Do(a) ELSE FALSE
SimSpec == Init /\ [][SimNext]_vars

(***************************************************************************)
(* The declarations that are looked at.                                     *)
(***************************************************************************)
Par(t) == IF IsParam(t) THEN t ELSE IF CanWrap("P", t) THEN W("P", t) ELSE B("i")
RefK(t) == W("R", Q("K", t))
RECURSIVE KeepTypes(_)
KeepTypes(a) == IF a = <<>> THEN <<>> ELSE (IF IsT(a[1]) THEN <<a[1]>> ELSE <<>>) \o KeepTypes(Tail(a))
MapPar(a) == [j \in DOMAIN a |-> Par(a[j])]
\* As parameters of a template: a type can be used everywhere, a value in expressions.
T0 == Tp(0)
ByRef(t) == IF CanWrap("R", t) THEN (IF IsFun(t) THEN W("R", T0) ELSE RefK(T0)) ELSE IF IsRef(t) THEN T0 ELSE W("P", T0)
TypePatterns(t, n) ==
  LET PT == IF IsRef(t) THEN T0 ELSE W("P", T0)
      VT == IF t = B("v") \/ (t.k = "q" /\ t.t = B("v")) THEN PT ELSE T0
      RT == ByRef(t)
      AT == IF CanWrap("A3", t) THEN W("R", Arr(Num("5"), T0)) ELSE PT
      MT == IF VT = T0 /\ ~IsRef(t) THEN M(Id("A"), T0) ELSE PT
  IN <<<<VT>>, <<PT, PT, VT>>, <<RT, VT, RT>>, <<W("P", F(FALSE, B("v"), <<VT, PT>>))>>,
       <<Tm(Id("V"), <<T0>>), Tm(Id("V"), <<T0>>), Tm(Id("V"), <<PT>>)>>, <<AT, PT>>,
       <<Par(t), IF IsRef(Par(t)) THEN B("i") ELSE W("P", Par(t)), VT>>, <<MT, Id("A")>>, <<Tm(Id("V"), <<Szt(T0)>>), VT>>, <<Tm(Id("V"), <<Cast(T0, Lit(B("i"), "1"))>>)>>,
       <<Tm(Id("V"), <<Sr(T0, Id("v"))>>), W("P", Tm(Id("V"), <<Tp(n - 1)>>))>>, <<InN(Tm(InN(Std, Id("pair")), <<T0, Tp(n - 1)>>), Id("type"))>>>>
ClassPatterns == <<<<InN(T0, Id("type")), W("P", InN(T0, Id("type")))>>, <<M(T0, B("i")), M(T0, F(FALSE, B("v"), <<T0>>))>>, <<Tm(InN(T0, Id("re")), <<T0>>)>>>>
ValuePatterns == <<<<Tm(Id("V"), <<Xp(0)>>)>>, <<W("R", Arr(Xp(0), B("c"))), W("R", Arr(Xp(0), B("c")))>>, <<Tm(Id("V"), <<Un("ng", Xp(0))>>)>>, <<Tm(Id("V"), <<Bi("pl", Xp(0), Lit(B("i"), "1"))>>)>>,
                   <<Tm(Id("V"), <<Bi("gt", Xp(0), Xp(0))>>)>>, <<Tm(Id("V"), <<Tri("qu", Xp(0), Xp(0), Lit(B("i"), "0"))>>)>>, <<Tm(Id("V"), <<Szx(Xp(0))>>), B("i")>>>>
OpsTested == {"nw", "dl", "na", "da", "ng", "co", "pp", "mm", "pl", "mi", "ml", "eq", "lt", "gt", "ls", "rs", "lS", "aS", "pL", "cl", "ix", "pt", "pm", "cm", "aa", "oo", "nt", "le", "ge", "ne", "eo", "an", "or", "rm", "dv", "eO", "rS", "aN", "oR", "rM", "dV", "mL", "mI"}
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
OpList == SeqOf(OpsTested)
Sy(d) == [t |-> "sym", m |-> Mangled(d)]
SyAll(a) == [j \in DOMAIN a |-> Sy(a[j])]
Plain(T) == LET t == T[Len(T)] IN
  <<Fn(Id("f"), "", Nil, <<Par(t)>>), Fn(InN(Id("N"), Id("f")), "", Nil, MapPar(T) \o <<W("P", Par(t)), Par(t)>>), Sp("TI", t), Sp("TS", t)>>
OfClass(c, T) ==
  <<Data(InN(c, Id("v")), ""), Fn(InN(c, Id("m")), "K", Nil, <<RefK(c), W("P", c)>>), Fn(InN(c, Op("aS")), "", Nil, <<RefK(c)>>), Fn(InN(c, Conv(Par(T[1]))), "K", Nil, <<B("v")>>),
    Sp("TV", c), Thunk("h", "hn8_", Fn(InN(c, Id("m")), "VK", Nil, MapPar(T))), Gv(InN(c, Id("s")), ""), Data(LocD(Fn(InN(c, Id("m")), "V", Nil, <<B("v")>>), Id("s"), "_1"), "")>>
  \o (IF ClassName(c) # "" THEN <<Fn(InN(c, Ct("C1")), "", Nil, <<RefK(c)>>), Fn(InN(c, Dt("D1")), "", Nil, <<B("v")>>), Fn(Tm(InN(c, Ct("C2")), <<T[1]>>), "", Nil, <<T0, c>>)>> ELSE <<>>)
  \o <<Fn(Tm(InN(c, Id("m")), T), "K", W("P", T0), <<W("P", c), T0>>), Fn(Tm(InN(c, Op("ls")), <<T[1]>>), "", W("R", c), <<ByRef(T[1])>>), Cvt(c, InN(c, Id("b")))>>
Templates(args) ==
  LET a == args[Len(args)]
      f == Tm(Id("f"), <<a>> \o SubSeq(args, 1, Len(args) - 1))
      g == Tm(InN(InN(Id("N"), Id("C")), Id("g")), <<a>> \o args)
      n == Len(args)
      P == IF IsT(a) THEN TypePatterns(a, IF IsT((<<a>> \o SubSeq(args, 1, n - 1))[n]) THEN n ELSE 1) \o (IF IsClass(a) THEN ClassPatterns ELSE <<>>) ELSE ValuePatterns
  IN [j \in DOMAIN P |-> IF j % 2 = 0 /\ IsT(a) THEN Fn(f, "", IF IsParam(a) /\ j % 4 = 0 THEN T0 ELSE W("P", Tm(Id("R"), <<T0>>)), P[j]) ELSE Fn(g, "", B("v"), P[j])]
Operators(T) == [j \in DOMAIN OpList |-> LET t == T[Len(T)] IN
                  CASE j % 3 = 0 -> Fn(Op(OpList[j]), "", Nil, <<RefK(Id("A")), Par(t)>>)
                    [] j % 3 = 1 -> Fn(InN(InN(Id("N"), Id("A")), Op(OpList[j])), "K", Nil, <<Par(t)>>)
                    [] OTHER -> Fn(Tm(Op(OpList[j]), <<t>>), "", B("v"), <<Id("A"), W("P", T0)>>)]
\* Numbers of more than one digit: of substitutions and of template parameters.
Classes(n) == [j \in 1..n |-> LET c == Id("c" \o ToString(j - (j % 3))) IN CASE j % 3 = 0 -> c [] j % 3 = 1 -> W("P", c) [] OTHER -> W("R", Q("K", c))]
Wide(T) ==
  LET t == Par(T[Len(T)])
      many == Classes(43)
      args == <<t>> \o SubSeq(Classes(14), 3, 14)
  IN <<Fn(Id("f"), "", Nil, <<t>> \o many \o <<t>> \o many),
       Fn(Tm(Id("f"), args), "", W("P", Tp(10)), [j \in 1..13 |-> Tp(13 - j)]),
       Fn(InN(Tm(Id("V"), args), Id("m")), "K", Nil, <<t, args[12], args[13]>>),
       Fn(Tm(InN(Tm(Id("V"), many), Id("m")), args), "", B("v"), <<Tp(11), Tp(1), Tp(12)>> \o many)>>
RealNames == SeqOf(DOMAIN Reals)
RealTemplates == [j \in DOMAIN RealNames |-> LET s == RealNames[j] IN Fn(Tm(Id("f"), <<Lit(B(IF Len(s) = 17 THEN "d" ELSE "f"), From(s, 2)), Lit(B("i"), "1")>>), "", B("v"), <<Tm(Id("V"), <<Xp(0)>>)>>)]
Observations ==
  LET T == KeepTypes(S)
      t == T[Len(T)]
  IN IF Len(S) = 0 THEN <<>>
     ELSE (IF T # <<>> /\ "type" \in Families THEN <<[t |-> "type", m |-> MangledType(t)]>> ELSE <<>>)
          \o SyAll((IF T # <<>> /\ "plain" \in Families THEN Plain(T) ELSE <<>>)
                \o (IF T # <<>> /\ IsClass(t) /\ t.k # "loc" /\ "class" \in Families THEN OfClass(t, T) ELSE <<>>)
                \o (IF "template" \in Families THEN Templates(S) ELSE <<>>)
                \o (IF T # <<>> /\ "operator" \in Families THEN Operators(T) ELSE <<>>) \o (IF T # <<>> /\ "wide" \in Families THEN Wide(T) ELSE <<>>) \o (IF S = <<Id("A")>> /\ "real" \in Families THEN RealTemplates ELSE <<>>))
\* The same again: the text of each of them.
Expected ==
  LET T == KeepTypes(S)
      t == T[Len(T)]
      D == (IF T # <<>> /\ "plain" \in Families THEN Plain(T) ELSE <<>>)
           \o (IF T # <<>> /\ IsClass(t) /\ t.k # "loc" /\ "class" \in Families THEN OfClass(t, T) ELSE <<>>)
           \o (IF "template" \in Families THEN Templates(S) ELSE <<>>)
           \o (IF T # <<>> /\ "operator" \in Families THEN Operators(T) ELSE <<>>) \o (IF T # <<>> /\ "wide" \in Families THEN Wide(T) ELSE <<>>) \o (IF S = <<Id("A")>> /\ "real" \in Families THEN RealTemplates ELSE <<>>)
  IN IF Len(S) = 0 THEN <<>>
     ELSE (IF T # <<>> /\ "type" \in Families THEN <<TypeText(t, FALSE)>> ELSE <<>>) \o [j \in DOMAIN D |-> EncText(Resolve(D[j]))]

(***************************************************************************)
(* Names that are not names: a part is missing, double or something else.   *)
(***************************************************************************)
Chars == "ZNSTIXLEFMAKVPRUvijcdefCDGthlos_019a5qnprwxyzbgkmuBHJOW$.- "
RandomFrom(n) == RandomElement(Now(1..n))
Mutant(m) ==
  LET n == Len(m)
      i == RandomFrom(n)
      j == RandomFrom(n)
      c == At(Chars, RandomFrom(Len(Chars)))
      k == RandomFrom(7)
  IN CASE k <= 2 -> Sub(m, 1, i - 1)
       [] k = 3 -> Sub(m, 1, i - 1) \o From(m, i + 1)
       [] k = 4 -> Sub(m, 1, i - 1) \o c \o From(m, i + 1)
       [] k = 5 -> Sub(m, 1, i - 1) \o c \o From(m, i)
       [] k = 6 -> Sub(m, 1, i) \o From(m, j)
       [] k = 7 -> Sub(m, 1, i) \o c \o From(m, j)
Mutants(a) == LET RECURSIVE G(_)
                  G(n) == IF n = 0 THEN <<>> ELSE LET x == a[RandomFrom(Len(a))] IN <<[t |-> x.t, m |-> Mutant(x.m), mut |-> TRUE]>> \o G(n - 1)
              IN IF a = <<>> THEN <<>> ELSE G(Mutate)
Names == LET o == Observations IN o \o Mutants(o)
Emit == EmitScripts => (S # <<>> => PrintT("SCRIPT " \o ToJson(Names)))
\* Without the blanks that are only style.
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 3 THEN s
              ELSE IF At(s, 1) = "*" /\ At(s, 2) = " " /\ At(s, 3) = "(" THEN "*" \o Squeeze(From(s, 3)) ELSE At(s, 1) \o Squeeze(From(s, 2))
\* Reading a name gives the declaration that it was made of.
RoundTrip == LET o == Observations
                 e == Expected
             IN \A j \in DOMAIN o : LET v == IF o[j].t = "type" THEN Type(o[j].m) ELSE Symbol(o[j].m)
                                    IN IF Squeeze(v.out) = Squeeze(e[j]) /\ ~v.maybe THEN TRUE ELSE PrintT(<<"ROUND", o[j].m, v, e[j]>>) /\ FALSE
\* Different types have different names, and no name starts with another one: nothing is lost.
PrefixFree == LET o == {MangledType(S[j]) : j \in {j \in DOMAIN S : IsT(S[j])}} IN
              \A a \in o : \A b \in o : a = b \/ ~StartsWith(b, a) \/ At(b, Len(a) + 1) = "I"
Distinct == \A i, j \in DOMAIN S : IsT(S[i]) /\ IsT(S[j]) /\ S[i] # S[j] => MangledType(S[i]) # MangledType(S[j])
=============================================================================
