------------------------------- MODULE Mangle -------------------------------
(***************************************************************************)
(* What demangle_symbol and demangle_type write.  Declarations are trees.   *)
(* Mangled(d) is the name that the C++ ABI gives to a declaration, with its *)
(* dictionary of substitutions; Text(d) is the declaration as libcwd writes *)
(* it; Parse* reads a name back into the tree that it encodes.              *)
(*                                                                          *)
(* A node is a record with a kind k:                                        *)
(*  types        b(c)           builtin type with letter c                  *)
(*               w(c,t)         P pointer to t, R reference to t            *)
(*               q(q,t)         cv-qualified t, q in the order it is coded  *)
(*               A(n,t)         array of t with bound n (none, num or expr) *)
(*               F(y,r,a)       function returning r (y: extern "C")        *)
(*               M(cl,t,via)  pointer to member of cl; via: the function   *)
(*                            type is not written here (style only)      *)
(*               U(s,t)         vendor qualifier s                          *)
(*               cx(c,t)        C complex, G imaginary                      *)
(*  names        id(s) std in(p,n) tm(p,a) ab(c) loc(e,n) str               *)
(*               and, as last part of a name, op(c) cv(t) ct(c) dt(c)       *)
(*  template parameters          tp(i); as an expression xp(i)              *)
(*  expressions  lit(t,s) ext(e) un(c,x) bi(c,x,y) tri(c,x,y,z) cast(t,x)   *)
(*               szt(t) szx(x) sr(t,n)                                      *)
(*  encodings    fn(n,q,r,a) data(n,q) sp(c,t) thunk(c,e) cvt(x,y) gv(n,q)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Reals

Nil == [k |-> "nil"]
B(c) == [k |-> "b", c |-> c]
W(c, t) == [k |-> "w", c |-> c, t |-> t]
Q(q, t) == [k |-> "q", q |-> q, t |-> t]
Arr(n, t) == [k |-> "A", n |-> n, t |-> t]
NoBound == [k |-> "none"]
Num(s) == [k |-> "num", s |-> s]
F(y, r, a) == [k |-> "F", y |-> y, r |-> r, a |-> a]
M(c, t) == [k |-> "M", cl |-> c, t |-> t, via |-> FALSE]
U(n, t) == [k |-> "U", s |-> n, t |-> t]
Cx(c, t) == [k |-> "cx", c |-> c, t |-> t]
Id(s) == [k |-> "id", s |-> s]
Std == [k |-> "std"]
InN(p, n) == [k |-> "in", p |-> p, n |-> n]
Tm(p, a) == [k |-> "tm", p |-> p, a |-> a]
Ab(c) == [k |-> "ab", c |-> c]
Loc(e, n) == [k |-> "loc", e |-> e, n |-> n, d |-> ""]
LocD(e, n, d) == [k |-> "loc", e |-> e, n |-> n, d |-> d]
Str == [k |-> "str"]
Op(c) == [k |-> "op", c |-> c]
Conv(t) == [k |-> "cv", t |-> t]
Ct(c) == [k |-> "ct", c |-> c]
Dt(c) == [k |-> "dt", c |-> c]
Tp(i) == [k |-> "tp", i |-> i]
Xp(i) == [k |-> "xp", i |-> i]
Lit(t, s) == [k |-> "lit", t |-> t, s |-> s]
Ext(e) == [k |-> "ext", e |-> e]
Un(c, a) == [k |-> "un", c |-> c, x |-> a]
Bi(c, a, b) == [k |-> "bi", c |-> c, x |-> a, y |-> b]
Tri(c, a, b, d) == [k |-> "tri", c |-> c, x |-> a, y |-> b, z |-> d]
Cast(t, a) == [k |-> "cast", t |-> t, x |-> a]
Szt(t) == [k |-> "szt", t |-> t]
Szx(a) == [k |-> "szx", x |-> a]
Sr(t, n) == [k |-> "sr", t |-> t, n |-> n]
Fn(n, q, r, a) == [k |-> "fn", n |-> n, q |-> q, r |-> r, a |-> a]
Data(n, q) == [k |-> "data", n |-> n, q |-> q]
Sp(c, t) == [k |-> "sp", c |-> c, t |-> t]
Thunk(c, o, e) == [k |-> "thunk", c |-> c, o |-> o, e |-> e]
Cvt(a, b) == [k |-> "cvt", x |-> a, y |-> b]
Gv(n, q) == [k |-> "gv", n |-> n, q |-> q]

IsExpr(n) == n.k \in {"xp", "lit", "ext", "un", "bi", "tri", "cast", "szt", "szx", "sr"}

(***************************************************************************)
(* Tables.                                                                  *)
(***************************************************************************)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f"}
CVr == {"K", "V", "r"}
Builtins == [a |-> "signed char", b |-> "bool", c |-> "char", d |-> "double", e |-> "long double", f |-> "float", g |-> "__float128",
             h |-> "unsigned char", i |-> "int", j |-> "unsigned int", l |-> "long", m |-> "unsigned long", n |-> "__int128",
             o |-> "unsigned __int128", s |-> "short", t |-> "unsigned short", v |-> "void", w |-> "wchar_t", x |-> "long long",
             y |-> "unsigned long long", z |-> "..."]
\* Operators: what follows the word operator, and the number of operands in an expression (0: not in expressions).
OpSym == [nw |-> " new", na |-> " new[]", dl |-> " delete", da |-> " delete[]",
          ps |-> "+", ng |-> "-", ad |-> "&", de |-> "*", co |-> "~", nt |-> "!", pp |-> "++", mm |-> "--",
          pl |-> "+", mi |-> "-", ml |-> "*", dv |-> "/", rm |-> "%", an |-> "&", or |-> "|", eo |-> "^",
          ls |-> "<<", rs |-> ">>", eq |-> "==", ne |-> "!=", lt |-> "<", gt |-> ">", le |-> "<=", ge |-> ">=", aa |-> "&&", oo |-> "||",
          aS |-> "=", pL |-> "+=", mI |-> "-=", mL |-> "*=", dV |-> "/=", rM |-> "%=", aN |-> "&=", oR |-> "|=", eO |-> "^=", lS |-> "<<=", rS |-> ">>=",
          cm |-> ",", pm |-> "->*", pt |-> "->", cl |-> "()", ix |-> "[]", qu |-> "?"]
UnOps == {"na", "da", "nw", "dl", "ps", "ng", "ad", "de", "co", "nt", "pp", "mm", "cl", "ix"}
TriOps == {"qu"}
BiOps == (DOMAIN OpSym) \ (UnOps \cup TriOps)
Abbr == [a |-> "std::allocator", b |-> "std::basic_string", s |-> "std::string", i |-> "std::istream", o |-> "std::ostream", d |-> "std::iostream"]
AbbrClass == [a |-> "allocator", b |-> "basic_string", s |-> "string", i |-> "istream", o |-> "ostream", d |-> "iostream"]
SpName == [TV |-> "vtable for ", TT |-> "VTT for ", TI |-> "typeinfo for ", TS |-> "typeinfo name for "]
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
From(s, i) == Sub(s, i, Len(s))
Last(s) == At(s, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ Sub(s, 1, Len(p)) = p
RECURSIVE Has(_, _)
Has(s, c) == s # "" /\ (At(s, 1) = c \/ Has(From(s, 2), c))

(***************************************************************************)
(* Template parameters replaced by the arguments they stand for.           *)
(***************************************************************************)
RECURSIVE Subst(_, _)
SubstSeq(a, ta) == [j \in DOMAIN a |-> Subst(a[j], ta)]
Subst(n, ta) ==
  CASE n.k \in {"tp", "xp"} -> IF n.i < Len(ta) THEN ta[n.i + 1] ELSE n
    [] n.k \in {"w", "q", "U", "cx", "sp", "szt"} -> [n EXCEPT !.t = Subst(@, ta)]
    [] n.k = "A" -> [n EXCEPT !.t = Subst(@, ta), !.n = Subst(@, ta)]
    [] n.k = "F" -> [n EXCEPT !.r = Subst(@, ta), !.a = SubstSeq(@, ta)]
    [] n.k = "M" -> [n EXCEPT !.t = Subst(@, ta), !.cl = Subst(@, ta)]
    [] n.k = "in" -> [n EXCEPT !.p = Subst(@, ta), !.n = Subst(@, ta)]
    [] n.k = "tm" -> [n EXCEPT !.p = Subst(@, ta), !.a = SubstSeq(@, ta)]
    [] n.k = "cv" -> [n EXCEPT !.t = Subst(@, ta)]
    [] n.k = "lit" -> [n EXCEPT !.t = Subst(@, ta)]
    [] n.k \in {"un", "szx"} -> [n EXCEPT !.x = Subst(@, ta)]
    [] n.k = "bi" -> [n EXCEPT !.x = Subst(@, ta), !.y = Subst(@, ta)]
    [] n.k = "tri" -> [n EXCEPT !.x = Subst(@, ta), !.y = Subst(@, ta), !.z = Subst(@, ta)]
    [] n.k = "cast" -> [n EXCEPT !.t = Subst(@, ta), !.x = Subst(@, ta)]
    [] n.k = "sr" -> [n EXCEPT !.t = Subst(@, ta)]
    [] OTHER -> n

\* The template arguments that the parameters of a function refer to: those of the last template-id of its name.
RECURSIVE ArgsOf(_)
ArgsOf(n) == CASE n.k = "tm" -> n.a [] n.k = "in" -> ArgsOf(n.p) [] n.k = "loc" -> ArgsOf(n.n) [] OTHER -> <<>>
RECURSIVE LastPart(_)
LastPart(n) == CASE n.k = "tm" -> LastPart(n.p) [] n.k = "in" -> n.n [] n.k = "loc" -> LastPart(n.n) [] OTHER -> n
RECURSIVE IsTemplate(_)
IsTemplate(n) == CASE n.k = "tm" -> TRUE [] n.k = "loc" -> IsTemplate(n.n) [] OTHER -> FALSE
HasReturnType(n) == IsTemplate(n) /\ LastPart(n).k \notin {"ct", "dt", "cv"}
RECURSIVE Resolve(_)
Resolve(d) == CASE d.k = "fn" -> LET ta == ArgsOf(d.n) IN [d EXCEPT !.n = Resolve(@), !.r = Subst(@, ta), !.a = SubstSeq(@, ta)]
                [] d.k = "loc" -> [d EXCEPT !.e = Resolve(@)]
                [] d.k = "ext" -> [d EXCEPT !.e = Resolve(@)]
                [] OTHER -> d

(***************************************************************************)
(* The text of a declaration.                                               *)
(***************************************************************************)
\* A type is written around its name: a is what comes before it and b what follows it.
Chain(t0) == LET RECURSIVE C(_, _)
                 C(t, qs) == IF t.k \in {"w", "q", "A", "U"} \/ (t.k = "M" /\ ~(t.t.k = "F" \/ (t.t.k = "q" /\ t.t.t.k = "F"))) THEN C(t.t, <<t>> \o qs) ELSE [base |-> t, qs |-> qs]
             IN C(t0, <<>>)
CvText(cv) == (IF "K" \in cv THEN " const" ELSE "") \o (IF "V" \in cv THEN " volatile" ELSE "") \o (IF "r" \in cv THEN " restrict" ELSE "")
CvSet(q) == {c \in CVr : Has(q, c)}
\* Of member functions the qualifiers are written one after the other, the last one first.
RECURSIVE CvSeq(_)
CvSeq(q) == IF q = "" THEN "" ELSE CvSeq(From(q, 2)) \o CvText({At(q, 1)})
RECURSIVE Dims(_)
Dims(ix) == IF ix = <<>> THEN "" ELSE Dims(Tail(ix)) \o "[" \o Head(ix) \o "]"
NumText(s) == IF At(s, 1) = "n" THEN "-" \o From(s, 2) ELSE s
NeedsBlank(p) == LET n == LastPart(p) IN n.k = "op" /\ n.c \in {"ls", "lS", "lt"}

\* ta: inside template arguments, where a > needs parentheses.
RECURSIVE TypeParts(_, _)
RECURSIVE NameText(_, _)
RECURSIVE ExprText(_, _)
RECURSIVE EncText(_)
TypeText(t, ta) == IF IsExpr(t) THEN ExprText(t, ta) ELSE LET p == TypeParts(t, ta) IN p.a \o p.b
RECURSIVE List(_, _)
List(a, ta) == IF Len(a) = 0 THEN "" ELSE IF Len(a) = 1 THEN TypeText(a[1], ta) ELSE TypeText(a[1], ta) \o ", " \o List(Tail(a), ta)
Params(a, ta) == IF a = <<B("v")>> THEN "()" ELSE "(" \o List(a, ta) \o ")"
BoundText(n, ta) == CASE n.k = "none" -> "" [] n.k = "num" -> n.s [] OTHER -> ExprText(n, ta)
Flush(a, b, cv, ix, isLast) ==
  LET a1 == a \o CvText(cv)
      n == Len(ix)
  IN IF n = 0 THEN [a |-> a1, b |-> b]
     ELSE IF isLast THEN [a |-> a1, b |-> " " \o Dims(ix) \o b]
     ELSE [a |-> a1 \o " (", b |-> ") [" \o ix[n] \o "]" \o Dims(SubSeq(ix, 1, n - 1)) \o b]
\* qs: qualifiers from the inside to the outside.
Around(qs, a0, b0, ta) ==
  LET RECURSIVE G(_, _, _, _, _)
      G(j, a, b, cv, ix) ==
        IF j > Len(qs) THEN Flush(a, b, cv, ix, TRUE)
        ELSE LET x == qs[j] IN
             CASE x.k = "q" -> G(j + 1, a, b, cv \cup CvSet(x.q), ix)
               [] x.k = "A" -> G(j + 1, a, b, cv, Append(ix, BoundText(x.n, ta)))
               [] OTHER -> LET p == Flush(a, b, cv, ix, FALSE)
                               s == CASE x.k = "w" -> IF x.c = "P" THEN "*" ELSE "&"
                                      [] x.k = "M" -> " " \o TypeText(x.cl, ta) \o "::*"
                                      [] x.k = "U" -> " " \o x.s
                           IN G(j + 1, p.a \o s, p.b, {}, <<>>)
  IN G(1, a0, b0, {}, <<>>)
NoBlank(s) == IF At(s, 1) = " " THEN From(s, 2) ELSE s
TypeParts(t, ta) ==
  LET c == Chain(t)
      base == c.base
  IN CASE base.k = "F" ->
            LET r == TypeParts(base.r, ta)
                isq == Len(c.qs) > 0 /\ c.qs[1].k = "q"
                cv == IF isq THEN CvText(CvSet(c.qs[1].q)) ELSE ""
                in == Around(IF isq THEN Tail(c.qs) ELSE c.qs, "", "", ta)
                ina == NoBlank(in.a)
                sep == IF r.b = "" \/ Last(r.a) # "*" THEN " " ELSE ""
                after == (IF base.y THEN " [extern \"C\"] " ELSE "") \o Params(base.a, ta) \o cv \o r.b
            IN IF ina = "" /\ in.b = "" THEN [a |-> r.a \o sep, b |-> after] ELSE [a |-> r.a \o sep \o "(" \o ina, b |-> in.b \o ")" \o after]
       [] base.k = "M" ->
            LET f == IF base.t.k = "q" THEN base.t.t ELSE base.t
                cv == IF base.t.k = "q" THEN CvText(CvSet(base.t.q)) ELSE ""
                r == TypeParts(f.r, ta)
                sep == IF base.via /\ r.b # "" /\ Last(r.a) = "*" THEN "" ELSE " "
                in == Around(c.qs, r.a \o sep \o "(" \o TypeText(base.cl, ta) \o "::*", "", ta)
            IN [a |-> in.a, b |-> in.b \o ")" \o (IF f.y THEN " [extern \"C\"] " ELSE "") \o Params(f.a, ta) \o cv \o r.b]
       [] OTHER -> Around(c.qs, CASE base.k = "b" -> Builtins[base.c]
                                  [] base.k = "cx" -> (IF base.c = "C" THEN "complex " ELSE "imaginary ") \o TypeText(base.t, ta)
                                  [] IsExpr(base) -> ExprText(base, ta)
                                  [] OTHER -> NameText(base, ta), "", ta)
\* The name that constructors and destructors of this class have.
RECURSIVE ClassName(_)
IsAnonymous(s) == Len(s) > 11 /\ StartsWith(s, "_GLOBAL_") /\ At(s, 10) = "N" /\ At(s, 9) = At(s, 11)
IdText(s) == IF IsAnonymous(s) THEN "(anonymous namespace)" ELSE s
ClassName(n) == CASE n.k = "id" -> IdText(n.s) [] n.k = "in" -> ClassName(n.n) [] n.k = "tm" -> ClassName(n.p) [] n.k = "ab" -> AbbrClass[n.c]
                  [] n.k = "loc" -> ClassName(n.n) [] OTHER -> ""
PartText(n, p, ta) ==
  CASE n.k = "id" -> IdText(n.s)
    [] n.k = "op" -> "operator" \o OpSym[n.c]
    [] n.k = "cv" -> "operator " \o TypeText(n.t, ta)
    [] n.k = "ct" -> ClassName(p)
    [] n.k = "dt" -> "~" \o ClassName(p)
NameText(n, ta) ==
  CASE n.k \in {"id", "op", "cv"} -> PartText(n, Nil, ta)
    [] n.k = "std" -> "std"
    [] n.k = "in" -> NameText(n.p, ta) \o "::" \o PartText(n.n, n.p, ta)
    [] n.k = "tm" -> LET a == List(n.a, TRUE) IN NameText(n.p, ta) \o (IF NeedsBlank(n.p) THEN " " ELSE "") \o "<" \o a \o (IF Last(a) = ">" THEN " >" ELSE ">")
    [] n.k = "ab" -> Abbr[n.c]
    [] n.k = "str" -> "string literal"
    [] n.k = "loc" -> EncText(n.e) \o "::" \o NameText(n.n, ta)
    [] OTHER -> TypeText(n, ta) \* what a template parameter stands for
LitText(n, ta) == CASE n.t = B("b") -> IF n.s = "0" THEN "false" ELSE "true"
                    [] n.t = B("i") -> NumText(n.s)
                    [] n.t.k = "b" /\ n.t.c \in {"d", "f"} -> "(" \o TypeText(n.t, ta) \o ")" \o (IF ("x" \o n.s) \in DOMAIN Reals THEN Reals["x" \o n.s] ELSE "?")
                    [] n.t.k = "b" /\ n.t.c \in {"e", "g"} -> "(" \o TypeText(n.t, ta) \o ")[" \o n.s \o "]"
                    [] OTHER -> "(" \o TypeText(n.t, ta) \o ")" \o NumText(n.s)
ExprText(x, ta) ==
  CASE x.k = "lit" -> LitText(x, ta)
    [] x.k = "ext" -> EncText(x.e)
    [] x.k = "un" -> (IF StartsWith(OpSym[x.c], " ") THEN From(OpSym[x.c], 2) ELSE OpSym[x.c]) \o "(" \o ExprText(x.x, ta) \o ")"
    [] x.k = "bi" -> LET gt == x.c = "gt" /\ ta
                     IN (IF gt THEN "(" ELSE "") \o "(" \o ExprText(x.x, ta) \o ") " \o OpSym[x.c] \o " (" \o ExprText(x.y, ta) \o ")" \o (IF gt THEN ")" ELSE "")
    [] x.k = "tri" -> "(" \o ExprText(x.x, ta) \o ") " \o OpSym[x.c] \o " (" \o ExprText(x.y, ta) \o ") : (" \o ExprText(x.z, ta) \o ")"
    [] x.k = "cast" -> "(" \o TypeText(x.t, ta) \o ")(" \o ExprText(x.x, ta) \o ")"
    [] x.k = "szt" -> "sizeof (" \o TypeText(x.t, ta) \o ")"
    [] x.k = "szx" -> "sizeof (" \o ExprText(x.x, ta) \o ")"
    [] x.k = "sr" -> TypeText(x.t, ta) \o "::" \o NameText(x.n, ta)
    [] OTHER -> TypeText(x, ta)
ThunkText == [h |-> "non-virtual thunk to ", v |-> "virtual thunk to ", c |-> "covariant return thunk to "]
EncText(d) ==
  CASE d.k = "fn" -> LET r == IF d.r = Nil THEN [a |-> "", b |-> ""] ELSE TypeParts(d.r, FALSE)
                     IN r.a \o (IF d.r = Nil THEN "" ELSE " ") \o NameText(d.n, FALSE) \o Params(d.a, FALSE) \o CvSeq(d.q) \o r.b
    [] d.k = "data" -> NameText(d.n, FALSE) \o CvSeq(d.q)
    [] d.k = "sp" -> SpName[d.c] \o TypeText(d.t, FALSE)
    [] d.k = "thunk" -> ThunkText[d.c] \o EncText(d.e)
    [] d.k = "cvt" -> "construction vtable for " \o TypeText(d.y, FALSE) \o "-in-" \o TypeText(d.x, FALSE)
    [] d.k = "gv" -> "guard variable for " \o NameText(d.n, FALSE) \o CvSeq(d.q)

(***************************************************************************)
(* The name that the C++ ABI gives to a declaration.  D: dictionary of what *)
(* can be substituted, in the order in which it occurs.  The result is the  *)
(* text m and the extended dictionary.                                      *)
(***************************************************************************)
Base36 == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE Seq36(_)
Seq36(n) == IF n < 36 THEN At(Base36, n + 1) ELSE Seq36(n \div 36) \o At(Base36, (n % 36) + 1)
SubstRef(i) == IF i = 1 THEN "S_" ELSE "S" \o Seq36(i - 2) \o "_"
IndexOf(x, D) == IF \E i \in DOMAIN D : D[i] = x THEN CHOOSE i \in DOMAIN D : D[i] = x /\ \A j \in 1..(i - 1) : D[j] # x ELSE 0
Param(i) == IF i = 0 THEN "T_" ELSE "T" \o ToString(i - 1) \o "_"
Source(s) == ToString(Len(s)) \o s
R(m, D) == [m |-> m, D |-> D]
Pre(s, r) == R(s \o r.m, r.D)
Post(r, s) == R(r.m \o s, r.D)
Add(r, x) == R(r.m, Append(r.D, x))

RECURSIVE MType(_, _)
RECURSIVE MPrefix(_, _)
RECURSIVE MName(_, _, _)
RECURSIVE MExpr(_, _)
RECURSIVE MEnc(_, _)
RECURSIVE MTypes(_, _)
MTypes(a, D) == IF a = <<>> THEN R("", D) ELSE LET x == MType(a[1], D) IN Pre(x.m, MTypes(Tail(a), x.D))
MArg(x, D) == CASE x.k = "lit" -> MExpr(x, D)
                [] x.k = "ext" -> MExpr(x, D)
                [] IsExpr(x) -> Pre("X", Post(MExpr(x, D), "E"))
                [] OTHER -> MType(x, D)
RECURSIVE MArgList(_, _)
MArgList(a, D) == IF a = <<>> THEN R("", D) ELSE LET x == MArg(a[1], D) IN Pre(x.m, MArgList(Tail(a), x.D))
MArgs(a, D) == Pre("I", Post(MArgList(a, D), "E"))
MPart(n, D) == CASE n.k = "id" -> R(Source(n.s), D)
                 [] n.k = "op" -> R(n.c, D)
                 [] n.k = "cv" -> Pre("cv", MType(n.t, D))
                 [] n.k \in {"ct", "dt"} -> R(n.c, D)
                 [] n.k = "str" -> R("s", D)
MBound(n, D) == CASE n.k = "none" -> R("", D) [] n.k = "num" -> R(n.s, D) [] OTHER -> MExpr(n, D)
MFun(t, D) == LET r == MType(t.r, D) IN Pre("F" \o (IF t.y THEN "Y" ELSE "") \o r.m, Post(MTypes(t.a, r.D), "E"))
MType(t, D) ==
  CASE t.k = "b" -> R(t.c, D)
    [] t.k = "ab" -> R("S" \o t.c, D)
    [] IndexOf(t, D) > 0 -> R(SubstRef(IndexOf(t, D)), D)
    [] OTHER ->
       Add(CASE t.k = "w" -> Pre(t.c, MType(t.t, D))
             [] t.k = "q" -> Pre(t.q, IF t.t.k = "F" THEN MFun(t.t, D) ELSE MType(t.t, D)) \* a cv-qualified function type is written in full
             [] t.k = "A" -> LET n == MBound(t.n, D) IN Pre("A" \o n.m \o "_", MType(t.t, n.D))
             [] t.k = "F" -> MFun(t, D)
             [] t.k = "M" -> LET c == MType(t.cl, D) IN Pre("M" \o c.m, MType(t.t, c.D))
             [] t.k = "U" -> Pre("U" \o Source(t.s), MType(t.t, D))
             [] t.k = "cx" -> Pre(t.c, MType(t.t, D))
             [] t.k = "tp" -> R(Param(t.i), D)
             [] OTHER -> MName(t, "", D), t)
\* A scope or template inside a nested name.
MPrefix(p, D) ==
  CASE p.k = "std" -> R("St", D)
    [] p.k = "ab" -> R("S" \o p.c, D)
    [] IndexOf(p, D) > 0 -> R(SubstRef(IndexOf(p, D)), D)
    [] OTHER -> Add(CASE p.k = "tp" -> R(Param(p.i), D)
                      [] p.k = "tm" -> LET x == MPrefix(p.p, D) IN Pre(x.m, MArgs(p.a, x.D))
                      [] p.k = "in" -> LET x == MPrefix(p.p, D) IN Pre(x.m, MPart(p.n, x.D))
                      [] OTHER -> MPart(p, D), p)
Unscoped(n) == n.k \in {"id", "op", "cv"} \/ (n.k = "in" /\ n.p.k = "std")
\* The name of a type, function or object; q: qualifiers of a member function.
MName(n, q, D) ==
  CASE n.k = "in" /\ n.p.k = "std" -> Pre("St", MPart(n.n, D))
    [] n.k = "in" -> LET x == MPrefix(n.p, D) IN Pre("N" \o q \o x.m, Post(MPart(n.n, x.D), "E"))
    [] n.k = "tm" /\ (Unscoped(n.p) \/ n.p.k \in {"ab", "tp"}) -> LET x == MPrefix(n.p, D) IN Pre(x.m, MArgs(n.a, x.D))
    [] n.k = "tm" -> LET x == MPrefix(n.p, D) IN Pre("N" \o q \o x.m, Post(MArgs(n.a, x.D), "E"))
    [] n.k = "loc" -> LET e == MEnc(n.e, D) IN Pre("Z" \o e.m \o "E", Post(MName(n.n, q, e.D), n.d))
    [] OTHER -> MPart(n, D)
MExpr(x, D) ==
  CASE x.k = "xp" -> R(Param(x.i), D)
    [] x.k = "lit" -> Pre("L", Post(MType(x.t, D), x.s \o "E"))
    [] x.k = "ext" -> Pre("L_Z", Post(MEnc(x.e, D), "E"))
    [] x.k = "un" -> Pre(x.c, MExpr(x.x, D))
    [] x.k = "bi" -> LET a == MExpr(x.x, D) IN Pre(x.c \o a.m, MExpr(x.y, a.D))
    [] x.k = "tri" -> LET a == MExpr(x.x, D)
                          b == MExpr(x.y, a.D)
                      IN Pre(x.c \o a.m \o b.m, MExpr(x.z, b.D))
    [] x.k = "cast" -> LET t == MType(x.t, D) IN Pre("cv" \o t.m, MExpr(x.x, t.D))
    [] x.k = "szt" -> Pre("st", MType(x.t, D))
    [] x.k = "szx" -> Pre("sz", MExpr(x.x, D))
    [] x.k = "sr" -> LET t == MType(x.t, D) IN IF x.n.k = "tm" THEN Pre("sr" \o t.m \o MPart(x.n.p, t.D).m, MArgs(x.n.a, t.D)) ELSE Pre("sr" \o t.m, MPart(x.n, t.D))
MEnc(d, D) ==
  CASE d.k = "fn" -> LET n == MName(d.n, d.q, D)
                         r == IF d.r = Nil THEN R("", n.D) ELSE MType(d.r, n.D)
                     IN Pre(n.m \o r.m, MTypes(d.a, r.D))
    [] d.k = "data" -> MName(d.n, d.q, D)
    [] d.k = "sp" -> Pre(d.c, MType(d.t, D))
    [] d.k = "thunk" -> Pre("T" \o d.o, MEnc(d.e, D))
    [] d.k = "cvt" -> LET a == MType(d.x, D) IN Pre("TC" \o a.m \o "0_", MType(d.y, a.D))
    [] d.k = "gv" -> Pre("GV", MName(d.n, d.q, D))
Mangled(d) == "_Z" \o MEnc(d, <<>>).m
MangledType(t) == MType(t, <<>>).m

(***************************************************************************)
(* Reading a name.  E: subs (what can be substituted, with template         *)
(* parameters already replaced), ta (template arguments of the name of the  *)
(* function that is being read), off (the first of these that T_ stands     *)
(* for), inT (inside a type), inA (number of template argument lists).      *)
(* Result: p (the position after it, 0 on failure), v, E, and x: whether    *)
(* libcwd may reject it, because it is not what a compiler generates.       *)
(***************************************************************************)
E0 == [subs |-> <<>>, ta |-> <<>>, off |-> 0, inT |-> FALSE, inA |-> 0]
Ok(p, v, E, x) == [p |-> p, v |-> v, E |-> E, x |-> x]
FailV == [k |-> "nil", n |-> Nil, q |-> "", s |-> "", c |-> ""]
Fail == [p |-> 0, v |-> FailV, E |-> E0, x |-> FALSE]
AddSub(E, v) == [E EXCEPT !.subs = Append(@, v)]
\* Back to the context C, with what was added.
Back(E, C) == [C EXCEPT !.subs = E.subs, !.ta = E.ta, !.off = E.off]
RECURSIVE RunEnd(_, _, _)
RunEnd(s, p, set) == IF At(s, p) \in set THEN RunEnd(s, p + 1, set) ELSE p
\* <number>: 0, or digits that do not start with 0; possibly after an n.
PNat(s, p) == IF At(s, p) = "0" THEN p + 1 ELSE IF At(s, p) \in Digits THEN RunEnd(s, p, Digits) ELSE 0
PNumber(s, p) == IF At(s, p) = "n" THEN PNat(s, p + 1) ELSE PNat(s, p)
RECURSIVE DigitVal(_, _)
ValOf(c) == CHOOSE v \in 0..35 : At(Base36, v + 1) = c
DigitVal(s, base) == IF s = "" THEN 0 ELSE DigitVal(Sub(s, 1, Len(s) - 1), base) * base + ValOf(Last(s))
PSource(s, p, E) ==
  LET q == RunEnd(s, p, Digits)
      n == IF q = p \/ q - p > 6 \/ At(s, p) = "0" THEN 0 ELSE DigitVal(Sub(s, p, q - 1), 10)
  IN IF n = 0 \/ q + n - 1 > Len(s) THEN Fail ELSE Ok(q + n, Id(Sub(s, q, q + n - 1)), E, FALSE)

RECURSIVE PType(_, _, _)
RECURSIVE PArgs(_, _, _)
RECURSIVE PExpr(_, _, _)
RECURSIVE PName(_, _, _)
RECURSIVE PEnc(_, _, _)
\* T_: what it stands for.
PParam(s, p, E) ==
  LET q == RunEnd(s, p + 1, Digits)
      i == IF q = p + 1 THEN 0 ELSE IF q - p > 6 THEN 100000 ELSE DigitVal(Sub(s, p + 1, q - 1), 10) + 1
  IN IF At(s, q) # "_" \/ E.off + i >= Len(E.ta) THEN Fail ELSE Ok(q + 1, E.ta[E.off + i + 1], E, FALSE)
Upper == {At(Base36, i) : i \in 11..36}
\* S_ and the abbreviations.
PSubst(s, p, E) ==
  LET c == At(s, p + 1) IN
  IF c \in DOMAIN Abbr THEN Ok(p + 2, Ab(c), E, FALSE)
  ELSE IF c = "t" THEN Ok(p + 2, Std, E, FALSE)
  ELSE LET q == RunEnd(s, p + 1, Digits \cup Upper)
           i == IF q = p + 1 THEN 1 ELSE IF q - p > 5 THEN 100000 ELSE DigitVal(Sub(s, p + 1, q - 1), 36) + 2
       IN IF At(s, q) # "_" \/ i > Len(E.subs) THEN Fail ELSE Ok(q + 1, E.subs[i], E, FALSE)
PLiteral(s, p, E) ==
  IF At(s, p + 1) = "_"
  THEN IF At(s, p + 2) # "Z" THEN Fail
       ELSE LET e == PEnc(s, p + 3, E) IN IF e.p = 0 \/ At(s, e.p) # "E" THEN Fail ELSE Ok(e.p + 1, Ext(e.v), e.E, e.x)
  ELSE LET t == PType(s, p + 1, E)
           real == t.v.k = "b" /\ t.v.c \in {"d", "e", "f", "g"}
           n == IF ~real THEN 0 ELSE CASE t.v.c = "d" -> 16 [] t.v.c = "f" -> 8 [] OTHER -> 32
           q == IF real THEN (IF \A j \in 0..(n - 1) : At(s, t.p + j) \in HexDigits THEN t.p + n ELSE 0)
                ELSE IF t.v = B("b") THEN (IF At(s, t.p) = "" THEN 0 ELSE t.p + 1)
                ELSE PNumber(s, t.p)
       IN IF t.p = 0 \/ q = 0 \/ At(s, q) # "E" THEN Fail
          ELSE Ok(q + 1, Lit(t.v, Sub(s, t.p, q - 1)), t.E, t.x \/ (t.v = B("b") /\ At(s, t.p) \notin {"0", "1"}) \/ (real /\ n < 32 /\ ("x" \o Sub(s, t.p, q - 1)) \notin DOMAIN Reals))
PExpr(s, p, E) ==
  LET c == At(s, p)
      op == c \o At(s, p + 1)
  IN CASE c = "T" -> PParam(s, p, E)
       [] c = "L" -> PLiteral(s, p, E)
       [] op = "st" -> LET t == PType(s, p + 2, E) IN IF t.p = 0 THEN Fail ELSE [t EXCEPT !.v = Szt(t.v)]
       [] op = "sz" -> LET a == PExpr(s, p + 2, E) IN IF a.p = 0 THEN Fail ELSE [a EXCEPT !.v = Szx(a.v)]
       [] op = "sr" -> LET t == PType(s, p + 2, E)
                           n == IF t.p = 0 THEN Fail ELSE PSource(s, t.p, t.E)
                           a == IF n.p = 0 \/ At(s, n.p) # "I" THEN Fail ELSE PArgs(s, n.p, n.E)
                       IN IF n.p = 0 THEN Fail ELSE IF At(s, n.p) = "I" THEN (IF a.p = 0 THEN Fail ELSE Ok(a.p, Sr(t.v, Tm(n.v, a.v)), a.E, t.x \/ a.x)) ELSE Ok(n.p, Sr(t.v, n.v), n.E, t.x)
       [] op = "cv" -> LET t == PType(s, p + 2, E)
                           a == IF t.p = 0 THEN Fail ELSE PExpr(s, t.p, t.E)
                       IN IF a.p = 0 THEN Fail ELSE Ok(a.p, Cast(t.v, a.v), a.E, t.x \/ a.x)
       [] op \in UnOps -> LET a == PExpr(s, p + 2, E) IN IF a.p = 0 THEN Fail ELSE Ok(a.p, Un(op, a.v), a.E, a.x \/ op \in {"cl", "ix"})
       [] op \in BiOps -> LET a == PExpr(s, p + 2, E)
                              b == IF a.p = 0 THEN Fail ELSE PExpr(s, a.p, a.E)
                          IN IF b.p = 0 THEN Fail ELSE Ok(b.p, Bi(op, a.v, b.v), b.E, a.x \/ b.x)
       [] op \in TriOps -> LET a == PExpr(s, p + 2, E)
                               b == IF a.p = 0 THEN Fail ELSE PExpr(s, a.p, a.E)
                               d == IF b.p = 0 THEN Fail ELSE PExpr(s, b.p, b.E)
                           IN IF d.p = 0 THEN Fail ELSE Ok(d.p, Tri(op, a.v, b.v, d.v), d.E, a.x \/ b.x \/ d.x)
       [] OTHER -> Fail
PArg(s, p, E) == CASE At(s, p) = "X" -> LET a == PExpr(s, p + 1, E) IN IF a.p = 0 \/ At(s, a.p) # "E" THEN Fail ELSE [a EXCEPT !.p = a.p + 1]
                   [] At(s, p) = "L" -> PLiteral(s, p, E)
                   [] OTHER -> PType(s, p, E)
PArgs(s, p, E) ==
  LET push == E.inA = 0 /\ ~E.inT
      first == Len(E.ta)
      RECURSIVE A(_, _, _, _)
      A(q, v, e, x) ==
        LET a == PArg(s, q, e)
            e1 == IF push THEN [a.E EXCEPT !.ta = Append(@, a.v)] ELSE a.E
        IN IF a.p = 0 THEN Fail
           ELSE IF At(s, a.p) = "E" THEN Ok(a.p + 1, Append(v, a.v), e1, x \/ a.x)
           ELSE A(a.p, Append(v, a.v), e1, x \/ a.x)
      r == A(p + 1, <<>>, [E EXCEPT !.inA = @ + 1], FALSE)
  IN IF r.p = 0 THEN Fail ELSE [r EXCEPT !.E = LET b == Back(r.E, E) IN IF push THEN [b EXCEPT !.off = first] ELSE b]
\* A part of a name; cls: whether a constructor can follow.
PPart(s, p, E, p0) ==
  LET c == At(s, p)
      op == c \o At(s, p + 1)
  IN CASE c \in Digits -> PSource(s, p, E)
       [] E.inA > 0 -> Fail
       [] op = "cv" -> LET future == IF At(s, p + 2) = "T" /\ At(s, p + 3) = "_" /\ At(s, p + 4) = "I" THEN PArg(s, p + 5, [E EXCEPT !.inA = @ + 1]) ELSE Fail
                           e == IF future.p = 0 THEN E ELSE [E EXCEPT !.off = Len(E.ta), !.ta = Append(@, future.v)]
                           t == PType(s, p + 2, e)
                       IN IF t.p = 0 THEN Fail ELSE Ok(t.p, Conv(t.v), t.E, t.x)
       [] op \in DOMAIN OpSym -> Ok(p + 2, Op(op), E, FALSE)
       [] op \in {"C1", "C2", "C3"} -> IF ClassName(p0) = "" THEN Fail ELSE Ok(p + 2, Ct(op), E, FALSE)
       [] op \in {"D0", "D1", "D2"} -> IF ClassName(p0) = "" THEN Fail ELSE Ok(p + 2, Dt(op), E, FALSE)
       [] OTHER -> Fail
PNested(s, p, E) ==
  LET q == RunEnd(s, p + 1, CVr)
      RECURSIVE L(_, _, _, _)
      L(j, v, e, x) ==
        LET c == At(s, j)
            isI == c = "I"
            r == IF isI THEN (IF v = Nil THEN Fail ELSE PArgs(s, j, e))
                 ELSE IF c = "S" THEN (IF v # Nil THEN Fail ELSE PSubst(s, j, e))
                 ELSE IF c = "T" THEN (IF v # Nil THEN Fail ELSE PParam(s, j, e))
                 ELSE PPart(s, j, e, v)
            n == IF isI THEN Tm(v, r.v) ELSE IF v = Nil \/ c = "S" \/ c = "T" THEN r.v ELSE InN(v, r.v)
            end == At(s, r.p) = "E"
            e1 == IF ~end /\ c # "S" THEN AddSub(r.E, n) ELSE r.E
        IN IF r.p = 0 THEN Fail
           ELSE IF end THEN Ok(r.p + 1, [n |-> n, q |-> Sub(s, p + 1, q - 1)], r.E, x \/ r.x \/ n.k \notin {"in", "tm"})
           ELSE L(r.p, n, e1, x \/ r.x \/ (n.k = "in" /\ n.n.k \in {"op", "cv", "ct", "dt"} /\ At(s, r.p) # "I"))
  IN L(q, Nil, E, FALSE)
PLocal(s, p, E) ==
  LET e == PEnc(s, p + 1, E)
      isStr == At(s, e.p + 1) = "s"
      n == IF e.p = 0 \/ At(s, e.p) # "E" THEN Fail
           ELSE IF isStr THEN Ok(e.p + 2, [n |-> Str, q |-> ""], e.E, e.x)
           ELSE PName(s, e.p + 1, e.E)
      d == IF n.p = 0 \/ At(s, n.p) # "_" THEN n.p ELSE IF At(s, n.p + 1) = "n" THEN n.p + 1 ELSE PNat(s, n.p + 1)
  IN IF n.p = 0 \/ d = 0 THEN Fail ELSE Ok(d, [n |-> Loc(e.v, n.v.n), q |-> n.v.q], n.E, e.x \/ n.x \/ At(s, n.p + 1) = "n")
\* Of functions, objects and classes: v has the name n and the qualifiers q of a member function.
PName(s, p, E) ==
  LET c == At(s, p) IN
  CASE c = "N" -> PNested(s, p, E)
    [] c = "Z" -> PLocal(s, p, E)
    [] OTHER ->
       LET std == c = "S" /\ At(s, p + 1) = "t"
           n0 == IF c = "S" /\ ~std THEN PSubst(s, p, E) ELSE PPart(s, IF std THEN p + 2 ELSE p, E, Nil)
           n == IF std THEN InN(Std, n0.v) ELSE n0.v
           a == IF n0.p # 0 /\ At(s, n0.p) = "I" THEN PArgs(s, n0.p, AddSub(n0.E, n)) ELSE Fail
           x == n0.x \/ (c = "S" /\ ~std)
       IN IF n0.p = 0 THEN Fail
          ELSE IF At(s, n0.p) = "I" THEN (IF a.p = 0 THEN Fail ELSE Ok(a.p, [n |-> Tm(n, a.v), q |-> ""], a.E, x \/ a.x))
          ELSE Ok(n0.p, [n |-> n, q |-> ""], n0.E, x)
\* Parameters, up to the end of the function type or of the name.
PParams(s, p, E, isDtor) ==
  LET RECURSIVE A(_, _, _, _)
      A(q, v, e, x) == LET t == PType(s, q, e)
                           v1 == Append(v, t.v)
                           void == t.v = B("v")
                       IN IF t.p = 0 THEN Fail
                          ELSE IF At(s, t.p) \in {"E", ""} THEN Ok(t.p, v1, t.E, x \/ t.x \/ void)
                          ELSE A(t.p, v1, t.E, x \/ t.x \/ void)
  IN IF At(s, p) = "v" \/ isDtor THEN (IF At(s, p) = "v" /\ At(s, p + 1) \in {"E", ""} THEN Ok(p + 1, <<B("v")>>, E, FALSE) ELSE Fail)
     ELSE A(p, <<>>, E, FALSE)
PFun(s, p, E, isQ) ==
  LET y == At(s, p + 1) = "Y"
      r == PType(s, IF y THEN p + 2 ELSE p + 1, E)
      a == IF r.p = 0 THEN Fail ELSE PParams(s, r.p, r.E, FALSE)
      v == F(y, r.v, a.v)
  IN IF a.p = 0 \/ At(s, a.p) # "E" THEN Fail ELSE Ok(a.p + 1, v, IF isQ THEN a.E ELSE AddSub(a.E, v), r.x \/ a.x)
PType(s, p, E1) ==
  LET E == [E1 EXCEPT !.inT = TRUE]
      c == At(s, p)
      Wrap(r, v) == IF r.p = 0 THEN Fail ELSE Ok(r.p, v, AddSub(r.E, v), r.x)
      Args(r) == IF r.p = 0 \/ At(s, r.p) # "I" THEN Fail ELSE PArgs(s, r.p, r.E)
      res ==
        CASE c \in {"P", "R"} -> LET r == PType(s, p + 1, E) IN Wrap(r, W(c, r.v))
          [] c \in CVr -> LET q == RunEnd(s, p, CVr)
                              r == IF At(s, q) = "F" THEN PFun(s, q, E, TRUE) ELSE PType(s, q, E)
                              w == Wrap(r, Q(Sub(s, p, q - 1), r.v))
                          IN [w EXCEPT !.x = @ \/ q - p > 3 \/ (r.v.k = "q" /\ At(s, q) # "T") \/ (At(s, q) # "F" /\ (r.v.k = "F" \/ (r.v.k = "q" /\ r.v.t.k = "F")))]
          [] c = "U" -> LET n == PSource(s, p + 1, E)
                            r == IF n.p = 0 THEN Fail ELSE PType(s, n.p, n.E)
                        IN Wrap(r, U(IdText(n.v.s), r.v))
          [] c = "A" -> LET d == At(s, p + 1)
                            n == CASE d \in Digits -> LET q == PNat(s, p + 1) IN Ok(q, Num(Sub(s, p + 1, q - 1)), E, FALSE)
                                   [] d = "_" -> Ok(p + 1, NoBound, E, FALSE)
                                   [] OTHER -> PExpr(s, p + 1, E)
                            r == IF n.p = 0 \/ At(s, n.p) # "_" THEN Fail ELSE PType(s, n.p + 1, n.E)
                        IN [Wrap(r, Arr(n.v, r.v)) EXCEPT !.x = @ \/ n.x]
          [] c = "M" -> LET k == PType(s, p + 1, E)
                            q == RunEnd(s, k.p, CVr)
                            isF == k.p # 0 /\ At(s, q) = "F"
                            r == IF k.p = 0 THEN Fail ELSE PType(s, k.p, k.E)
                        IN [Wrap(r, [M(k.v, r.v) EXCEPT !.via = ~isF]) EXCEPT !.x = @ \/ k.x \/ (isF /\ At(s, q + 1) = "Y")]
          [] c \in {"C", "G"} -> LET r == PType(s, p + 1, E) IN IF At(s, p + 1) \in {"P", "R", "K", "V", "r", "U", "A", "M", "C", "G"} THEN Fail ELSE [Wrap(r, Cx(c, r.v)) EXCEPT !.x = @ \/ r.v.k # "b"]
          [] c = "F" -> PFun(s, p, E, FALSE)
          [] c = "T" -> LET r == PParam(s, p, E)
                            r1 == IF r.p = 0 THEN Fail ELSE [r EXCEPT !.E = AddSub(@, r.v), !.x = @ \/ IsExpr(r.v)]
                            a == Args(r1)
                        IN IF r.p = 0 THEN Fail ELSE IF At(s, r.p) = "I" THEN [Wrap(a, Tm(r.v, a.v)) EXCEPT !.x = @ \/ r.v.k \notin {"id", "in"}] ELSE r1
          [] c = "S" /\ At(s, p + 1) # "t" -> LET r == PSubst(s, p, E)
                                                  a == Args(r)
                                              IN IF r.p = 0 THEN Fail ELSE IF At(s, r.p) = "I" THEN [Wrap(a, Tm(r.v, a.v)) EXCEPT !.x = @ \/ r.v.k \notin {"id", "in", "ab"}] ELSE r
          [] c \in DOMAIN Builtins -> Ok(p + 1, B(c), E, FALSE)
          [] c \in Digits \cup {"N", "Z", "S"} -> LET r == PName(s, p, E) IN [Wrap(r, r.v.n) EXCEPT !.x = @ \/ r.v.q # "" \/ LastPart(r.v.n).k # "id"]
          [] OTHER -> Fail
  IN IF res.p = 0 THEN Fail ELSE [res EXCEPT !.E = Back(@, E1)]
POffset(s, p) == IF At(s, p) = "h" THEN LET q == PNumber(s, p + 1) IN IF q # 0 /\ At(s, q) = "_" THEN q + 1 ELSE 0
                 ELSE IF At(s, p) = "v" THEN LET q == PNumber(s, p + 1)
                                                 q2 == IF q # 0 /\ At(s, q) = "_" THEN PNumber(s, q + 1) ELSE 0
                                             IN IF q2 # 0 /\ At(s, q2) = "_" THEN q2 + 1 ELSE 0
                 ELSE 0
PEnc(s, p, E1) ==
  LET E == [subs |-> E1.subs, ta |-> <<>>, off |-> 0, inT |-> FALSE, inA |-> 0]
      op == At(s, p) \o At(s, p + 1)
      Nested(c, o, q) == LET e == IF q = 0 THEN Fail ELSE PEnc(s, q, E) IN IF e.p = 0 THEN Fail ELSE Ok(e.p, Thunk(c, o, e.v), e.E, e.x \/ e.v.k # "fn")
      res ==
        CASE op = "GV" -> LET n == PName(s, p + 2, E) IN IF n.p = 0 THEN Fail ELSE Ok(n.p, Gv(n.v.n, n.v.q), n.E, n.x \/ n.v.q # "")
          [] op \in DOMAIN SpName -> LET t == PType(s, p + 2, E) IN IF t.p = 0 THEN Fail ELSE Ok(t.p, Sp(op, t.v), t.E, t.x)
          [] op = "Tc" -> LET q == POffset(s, p + 2)
                              q2 == IF q = 0 THEN 0 ELSE POffset(s, q)
                          IN Nested("c", Sub(s, p + 1, q2 - 1), q2)
          [] op = "TC" -> LET a == PType(s, p + 2, E)
                              q == RunEnd(s, a.p, Digits)
                              b == IF a.p = 0 \/ At(s, q) # "_" THEN Fail ELSE PType(s, q + 1, a.E)
                          IN IF b.p = 0 THEN Fail ELSE Ok(b.p, Cvt(a.v, b.v), b.E, a.x \/ b.x \/ q = a.p)
          [] op \in {"Th", "Tv"} -> LET q == POffset(s, p + 1) IN Nested(At(s, p + 1), Sub(s, p + 1, q - 1), q)
          [] At(s, p) \in {"T", "G", ""} -> Fail
          [] OTHER ->
             LET n == PName(s, p, E)
                 hasR == HasReturnType(n.v.n)
                 r == IF n.p = 0 THEN Fail ELSE IF hasR THEN PType(s, n.p, n.E) ELSE Ok(n.p, Nil, n.E, FALSE)
                 a == IF r.p = 0 THEN Fail ELSE PParams(s, r.p, r.E, LastPart(n.v.n).k = "dt")
             IN IF n.p = 0 THEN Fail
                ELSE IF At(s, n.p) \in {"E", ""} THEN Ok(n.p, Data(n.v.n, n.v.q), n.E, n.x \/ n.v.q # "" \/ LastPart(n.v.n).k \in {"ct", "dt"})
                ELSE IF a.p = 0 THEN Fail ELSE Ok(a.p, Fn(n.v.n, n.v.q, r.v, a.v), a.E, n.x \/ r.x \/ a.x)
  IN IF res.p = 0 THEN Fail ELSE [res EXCEPT !.E = [E1 EXCEPT !.subs = res.E.subs]]

\* What demangle_symbol and demangle_type append; maybe: or else the name itself.
Verdict(out, maybe) == [out |-> out, maybe |-> maybe]
Symbol(s) ==
  IF StartsWith(s, "_Z")
  THEN LET e == PEnc(s, 3, E0) IN IF e.p = Len(s) + 1 THEN Verdict(EncText(e.v), e.x) ELSE Verdict(s, FALSE)
  ELSE IF StartsWith(s, "_GLOBAL__I_") THEN Verdict("global constructors keyed to " \o From(s, 12), FALSE)
  ELSE IF StartsWith(s, "_GLOBAL__D_") THEN Verdict("global destructors keyed to " \o From(s, 12), FALSE)
  ELSE Verdict(s, FALSE)
Type(s) == LET t == PType(s, 1, E0) IN IF t.p = Len(s) + 1 THEN Verdict(TypeText(t.v, FALSE), t.x) ELSE Verdict(s, FALSE)
=============================================================================
