------------------------------ MODULE TypeInfo ------------------------------
(***************************************************************************)
(* What type_info_of reports.  A type is written as a program p for a stack *)
(* machine, whose steps are strings: what to do and with what.  Build(p) is *)
(* the type, as a tree of Mangle.tla; Cpp its spelling in C++; Size, Ref    *)
(* the sizes; Name the name that the ABI gives to it; Text how libcwd       *)
(* writes it.  The types of the C++ program are those of harness/ti_types.h.*)
(***************************************************************************)
EXTENDS Mangle


CvMember(cv) == Loc(Fn(InN(Id("A"), Id("method")), cv, Nil, <<B("v")>>), Id("Loc2"))
\* name, what is written in C++, size (0: incomplete)
NameTable == [
  A |-> [t |-> Id("A"), cpp |-> "A", n |-> 64],
  S |-> [t |-> Id("S"), cpp |-> "S", n |-> 3],
  D |-> [t |-> Id("DNS"), cpp |-> "DNS", n |-> 5],
  Z |-> [t |-> Id("S0_"), cpp |-> "S0_", n |-> 7],
  z |-> [t |-> Id("KS1_"), cpp |-> "KS1_", n |-> 9],
  R |-> [t |-> Id("RKA3_PS"), cpp |-> "RKA3_PS", n |-> 11],
  N |-> [t |-> InN(Id("N"), Id("A")), cpp |-> "N::A", n |-> 2],
  M |-> [t |-> InN(InN(Id("N"), Id("S")), Id("S_")), cpp |-> "N::S::S_", n |-> 6],
  B |-> [t |-> Id("Big"), cpp |-> "Big", n |-> 70001],
  E |-> [t |-> Id("E"), cpp |-> "E", n |-> 4],
  e |-> [t |-> InN(Id("N"), Id("e")), cpp |-> "N::e", n |-> 1],
  U |-> [t |-> Id("U"), cpp |-> "U", n |-> 8],
  I |-> [t |-> Id("I"), cpp |-> "I", n |-> 0],
  V |-> [t |-> Id("Poly"), cpp |-> "Poly", n |-> 16],
  o |-> [t |-> Id("Empty"), cpp |-> "Empty", n |-> 1],
  C |-> [t |-> InN(Id("_GLOBAL__N_1"), Id("Anon")), cpp |-> "Anon", n |-> 10],
  L |-> [t |-> Loc(Fn(Id("function"), "", Nil, <<B("v")>>), Id("Loc1")), cpp |-> "Loc1_", n |-> 12],
  l |-> [t |-> CvMember("K"), cpp |-> "Loc2_", n |-> 13],
  m |-> [t |-> LocD(Fn(Id("function"), "", Nil, <<B("v")>>), Id("Loc1"), "_0"), cpp |-> "Loc1_0_", n |-> 14],
  T |-> [t |-> Tm(Id("TT"), <<Id("X")>>), cpp |-> "TT<X>", n |-> 15]]
\* The templates: their arguments are t (type) or v (value).
TemplateTable == [
  X |-> [t |-> Id("X"), cpp |-> "X", n |-> 17, a |-> <<"t">>],
  Y |-> [t |-> Id("YS"), cpp |-> "YS", n |-> 18, a |-> <<"t", "t">>],
  a |-> [t |-> Ab("a"), cpp |-> "std::allocator", n |-> 1, a |-> <<"t">>],
  l |-> [t |-> InN(Std, Id("less")), cpp |-> "std::less", n |-> 1, a |-> <<"t">>],
  V |-> [t |-> Id("V"), cpp |-> "V", n |-> 19, a |-> <<"v">>],
  W |-> [t |-> InN(Id("N"), Id("W")), cpp |-> "N::W", n |-> 20, a |-> <<"t", "v">>]]
ValueTable == [
  i3 |-> [t |-> Lit(B("i"), "3"), cpp |-> "3"],
  in |-> [t |-> Lit(B("i"), "n7"), cpp |-> "-7"],
  j |-> [t |-> Lit(B("j"), "42"), cpp |-> "42u"],
  m |-> [t |-> Lit(B("m"), "10"), cpp |-> "10ul"],
  b |-> [t |-> Lit(B("b"), "1"), cpp |-> "true"],
  c |-> [t |-> Lit(B("c"), "65"), cpp |-> "'A'"],
  E |-> [t |-> Lit(Id("E"), "2"), cpp |-> "E(2)"],
  e |-> [t |-> Lit(InN(Id("N"), Id("e")), "n2"), cpp |-> "N::e(-2)"],
  x |-> [t |-> Un("ad", Ext(Data(Id("x"), ""))), cpp |-> "&x"],
  h |-> [t |-> Un("ad", Ext(Fn(Id("h"), "", Nil, <<Id("A"), W("P", Id("A"))>>))), cpp |-> "&h"]]
BuiltinTable == [
  a |-> [cpp |-> "signed char", n |-> 1], b |-> [cpp |-> "bool", n |-> 1], c |-> [cpp |-> "char", n |-> 1], d |-> [cpp |-> "double", n |-> 8],
  e |-> [cpp |-> "long double", n |-> 16], f |-> [cpp |-> "float", n |-> 4], g |-> [cpp |-> "__float128", n |-> 16], h |-> [cpp |-> "unsigned char", n |-> 1],
  i |-> [cpp |-> "int", n |-> 4], j |-> [cpp |-> "unsigned", n |-> 4], l |-> [cpp |-> "long", n |-> 8], m |-> [cpp |-> "unsigned long", n |-> 8],
  n |-> [cpp |-> "__int128", n |-> 16], o |-> [cpp |-> "unsigned __int128", n |-> 16], s |-> [cpp |-> "short", n |-> 2], t |-> [cpp |-> "unsigned short", n |-> 2],
  v |-> [cpp |-> "void", n |-> 0], w |-> [cpp |-> "wchar_t", n |-> 4], x |-> [cpp |-> "long long", n |-> 8], y |-> [cpp |-> "unsigned long long", n |-> 8],
  Dn |-> [cpp |-> "decltype(nullptr)", n |-> 8], Ds |-> [cpp |-> "char16_t", n |-> 2], Du |-> [cpp |-> "char8_t", n |-> 1], Di |-> [cpp |-> "char32_t", n |-> 4]]

(***************************************************************************)
(* The stack machine.                                                       *)
(***************************************************************************)
Wrapped(x, t) == CASE x \in {"P", "R", "O"} -> W(x, t) [] x = "3" -> Arr(Num("3"), t) [] x = "12" -> Arr(Num("12"), t) [] x = "_" -> Arr(NoBound, t) [] OTHER -> Q(x, t)
FunArgs(x) == CASE x \in {"0", "z"} -> 0 [] x \in {"1", "e"} -> 1 [] OTHER -> 2
Apply(S, s) ==
  LET o == At(s, 1)
      x == From(s, 2)
      n == Len(S)
      Top == S[n]
      Rest(k) == SubSeq(S, 1, n - k)
  IN CASE o = "b" -> Append(S, B(x))
       [] o = "n" -> Append(S, NameTable[x].t)
       [] o = "v" -> Append(S, ValueTable[x].t)
       [] o = "w" -> Append(Rest(1), Wrapped(x, Top))
       [] o = "i" -> Append(Rest(1), InN(Top, Id("In")))
       [] o = "t" -> LET k == Len(TemplateTable[x].a) IN Append(Rest(k), Tm(TemplateTable[x].t, SubSeq(S, n - k + 1, n)))
       \* The result is on top of the parameters.
       [] o = "f" -> LET k == FunArgs(x)
                         a == SubSeq(S, n - k, n - 1)
                     IN Append(Rest(k + 1), F(FALSE, Top, IF x = "z" THEN <<B("z")>> ELSE IF k = 0 THEN <<B("v")>> ELSE IF x = "e" THEN Append(a, B("z")) ELSE a))
       [] o = "m" -> Append(Rest(2), M(Top, IF x = "" THEN S[n - 1] ELSE Q(x, S[n - 1])))
       [] o = "d" -> Append(S, S[IF x = "1" THEN n ELSE n - 1])
RECURSIVE BuildOn(_, _)
BuildOn(S, p) == IF p = <<>> THEN S ELSE BuildOn(Apply(S, Head(p)), Tail(p))
Build(p) == LET S == BuildOn(<<>>, p) IN S[Len(S)]

(***************************************************************************)
(* What is known about a type.                                              *)
(***************************************************************************)
Void == B("v")
Bare(t) == IF t.k = "q" THEN t.t ELSE t
IsRef(t) == t.k = "w" /\ t.c \in {"R", "O"}
IsFun(t) == Bare(t).k = "F"
Entries(table) == {table[x] : x \in DOMAIN table}
RECURSIVE Size(_)
Size(t) == \* 0: it has no size
  CASE t.k = "b" -> BuiltinTable[t.c].n
    [] t.k = "q" -> Size(t.t)
    [] IsRef(t) -> Size(t.t)
    [] t.k = "w" -> 8
    [] t.k = "A" -> IF t.n.k = "none" THEN 0 ELSE (IF t.n.s = "3" THEN 3 ELSE 12) * Size(t.t)
    [] t.k = "F" -> 0
    [] t.k = "M" -> IF IsFun(t.t) THEN 16 ELSE 8
    [] OTHER -> LET known == {e \in Entries(NameTable) : e.t = t}
                IN IF known # {} THEN (CHOOSE e \in known : TRUE).n
                   ELSE IF t.k = "in" THEN 21
                   ELSE (CHOOSE e \in Entries(TemplateTable) : e.t = t.p).n
\* Of what it points to, if it is a pointer.
Ref(t) == LET p == Bare(t) IN IF p.k = "w" /\ p.c = "P" THEN Size(p.t) ELSE 0
\* Without top-level qualifiers; those of an array are the ones of its elements.
RECURSIVE Strip(_)
Strip(t) == CASE t.k = "q" -> t.t [] t.k = "A" -> [t EXCEPT !.t = Strip(@)] [] OTHER -> t
RECURSIVE Demangles(_)
Demangles(t) ==
  CASE t.k = "b" -> Len(t.c) = 1
    [] t.k = "w" -> t.c # "O" /\ Demangles(t.t)
    [] t.k \in {"q", "A"} -> Demangles(t.t)
    [] t.k = "F" -> Demangles(t.r) /\ \A j \in DOMAIN t.a : Demangles(t.a[j])
    [] t.k = "M" -> Demangles(t.cl) /\ Demangles(t.t)
    [] t.k = "in" -> Demangles(t.p)
    [] t.k = "tm" -> \A j \in DOMAIN t.a : Demangles(t.a[j])
    [] OTHER -> TRUE
Text(t) == IF Demangles(t) THEN Type(MangledType(t)).out ELSE MangledType(t)
Info(t) == [name |-> MangledType(t), dem |-> Text(t), size |-> Size(t), ref |-> Ref(t)]
UnknownInfo == [name |-> "", dem |-> "<unknown type>", size |-> 0, ref |-> 0]
\* what: type_info_of<T>(), type_info_of(object of type T), unknown_type_info_c
Expect(what, p) == CASE what = "exact" -> Info(Build(p)) [] what = "object" -> Info(Strip(Build(p))) [] what = "unknown" -> UnknownInfo

(***************************************************************************)
(* How the type is written in C++.                                          *)
(***************************************************************************)
RECURSIVE Cpp(_)
RECURSIVE CppList(_)
CppList(a) == IF a = <<>> THEN "" ELSE IF Len(a) = 1 THEN Cpp(a[1]) ELSE Cpp(a[1]) \o ", " \o CppList(Tail(a))
CppFun(t, cv) ==
  LET z == t.a[Len(t.a)] = B("z")
      a == IF t.a = <<Void>> THEN <<>> ELSE IF z THEN SubSeq(t.a, 1, Len(t.a) - 1) ELSE t.a
  IN "Fun" \o (IF z THEN "E" ELSE "") \o cv \o "<" \o CppList(<<t.r>> \o a) \o ">"
Cpp(t) ==
  CASE t.k = "b" -> BuiltinTable[t.c].cpp
    [] t.k = "w" -> (CASE t.c = "P" -> "Ptr<" [] t.c = "R" -> "Ref<" [] t.c = "O" -> "RRef<") \o Cpp(t.t) \o ">"
    [] t.k = "q" -> IF t.t.k = "F" THEN CppFun(t.t, t.q) ELSE "Qual" \o t.q \o "<" \o Cpp(t.t) \o ">"
    [] t.k = "A" -> IF t.n.k = "none" THEN "ArrU<" \o Cpp(t.t) \o ">" ELSE "Arr<" \o Cpp(t.t) \o ", " \o t.n.s \o ">"
    [] t.k = "F" -> CppFun(t, "")
    [] t.k = "M" -> "Mem<" \o Cpp(t.cl) \o ", " \o Cpp(t.t) \o ">"
    [] t \in {e.t : e \in Entries(ValueTable)} -> (CHOOSE e \in Entries(ValueTable) : e.t = t).cpp
    [] t \in {e.t : e \in Entries(NameTable)} -> (CHOOSE e \in Entries(NameTable) : e.t = t).cpp
    [] t.k = "in" -> Cpp(t.p) \o "::In"
    [] t.k = "tm" -> (CHOOSE e \in Entries(TemplateTable) : e.t = t.p).cpp \o "<" \o CppList(t.a) \o ">"
=============================================================================
