----------------------------- MODULE TypeInfoMC -----------------------------
(* All programs of a bounded length, or random ones; the types that are on the stack afterwards are looked at. *)
EXTENDS TypeInfo, Json
CONSTANTS Depth, EmitScripts, BuiltinsUsed, NamesUsed, TemplatesUsed, ValuesUsed, WrapsUsed, OpsUsed, MaxStack
VARIABLES S, P, hist \* stack, for each of its entries the program that makes it, number of steps
vars == <<S, P, hist>>
Top == S[Len(S)]
Below(j) == S[Len(S) - j]
IsT(t) == ~IsExpr(t)
IsClass(t) == t.k \in {"id", "in", "tm", "loc"} /\ t \notin {Id("E"), InN(Id("N"), Id("e"))}
IsObject(t) == IsT(t) /\ Bare(t) # Void /\ ~IsFun(t) /\ ~IsRef(t)
\* A parameter: its top-level qualifiers do not belong to the type of the function.
IsParam(t) == IsT(t) /\ Bare(t) # Void /\ ~IsFun(t) /\ t.k \notin {"A", "q"}
IsResult(t) == IsT(t) /\ ~IsFun(t) /\ t.k # "A" /\ (t.k # "q" \/ IsClass(t.t))
RECURSIVE Height(_)
RECURSIVE HeightSeq(_)
HeightSeq(a) == IF a = <<>> THEN 0 ELSE LET h == Height(a[1])
                                           r == HeightSeq(Tail(a)) IN IF h > r THEN h ELSE r
Height(t) == CASE t.k \in {"w", "q", "A"} -> 1 + Height(t.t)
               [] t.k = "M" -> 1 + HeightSeq(<<t.cl, t.t>>)
               [] t.k = "F" -> 1 + HeightSeq(Append(t.a, t.r))
               [] t.k = "tm" -> 1 + HeightSeq(t.a)
               [] t.k = "in" -> 1 + Height(t.p)
               [] OTHER -> 1
Low(t) == Height(t) < 8
CanWrap(x, t) ==
  /\ IsT(t) /\ Low(t)
  /\ CASE x = "P" -> ~IsRef(t) /\ (t.k # "q" \/ t.t.k # "F")
       [] x \in {"R", "O"} -> ~IsRef(t) /\ Bare(t) # Void /\ (t.k # "q" \/ t.t.k # "F")
       [] x \in {"K", "V", "VK"} -> ~IsRef(t) /\ t.k \notin {"F", "A", "q"}
       [] x \in {"3", "12", "_"} -> IsObject(t) /\ ~(t.k = "A" /\ t.n.k = "none") /\ t # NameTable.I.t /\ Bare(t) # NameTable.I.t /\ Size(t) > 0 /\ Size(t) < 100000
ArgFits(kind, t) == Low(t) /\ IF kind = "t" THEN IsT(t) ELSE ~IsT(t)
CanDo(o, x) ==
  CASE o \in {"b", "n", "v"} -> Len(S) < MaxStack
    [] o = "w" -> Len(S) > 0 /\ CanWrap(x, Top)
    [] o = "i" -> Len(S) > 0 /\ Top.k = "tm" /\ Top.p = Id("X")
    [] o = "t" -> LET a == TemplateTable[x].a IN
                  Len(S) >= Len(a) /\ (\A j \in DOMAIN a : ArgFits(a[j], S[Len(S) - Len(a) + j]))
                  \* Of these the C++ library demands more.
                  /\ (x # "a" \/ (IsObject(Top) /\ Top.k \notin {"q", "A"})) /\ (x # "l" \/ IsObject(Top))
    [] o = "f" -> Len(S) > FunArgs(x) /\ IsResult(Top) /\ Low(Top) /\ \A j \in 1..FunArgs(x) : IsParam(Below(j)) /\ Low(Below(j))
    [] o = "m" -> Len(S) > 1 /\ IsClass(Top) /\ IsT(Below(1)) /\ ~IsRef(Below(1)) /\ Bare(Below(1)) # Void /\ Low(Below(1)) /\ (x = "" \/ Below(1).k = "F")
                  /\ Below(1).k # "A"
    [] o = "d" -> Len(S) < MaxStack /\ Len(S) >= (IF x = "1" THEN 1 ELSE 2)
Fixed == {"i", "f0", "f1", "f2", "fe", "fz", "m", "mK", "mVK", "d1", "d2"}
Alphabet == {"b" \o x : x \in BuiltinsUsed} \cup {"n" \o x : x \in NamesUsed} \cup {"v" \o x : x \in ValuesUsed} \cup {"w" \o x : x \in WrapsUsed} \cup {"t" \o x : x \in TemplatesUsed}
            \cup {s \in Fixed : At(s, 1) \in OpsUsed}
Usable == {s \in Alphabet : CanDo(At(s, 1), From(s, 2))}
Takes(s) == LET o == At(s, 1) IN CASE o \in {"b", "n", "v", "d"} -> 0 [] o \in {"w", "i"} -> 1 [] o = "t" -> Len(TemplateTable[From(s, 2)].a) [] o = "f" -> 1 + FunArgs(From(s, 2)) [] o = "m" -> 2
RECURSIVE Concat(_)
Concat(a) == IF a = <<>> THEN <<>> ELSE Head(a) \o Concat(Tail(a))
Do(s) ==
  LET n == Len(S)
      k == Takes(s)
  IN /\ Len(hist) < Depth
     /\ S' = Apply(S, s)
     /\ P' = IF At(s, 1) = "d" THEN Append(P, P[IF s = "d1" THEN n ELSE n - 1])
             ELSE Append(SubSeq(P, 1, n - k), Append(Concat(SubSeq(P, n - k + 1, n)), s))
     /\ hist' = Append(hist, "")
Init == S = <<>> /\ P = <<>> /\ hist = <<>>
Next == \E s \in Usable : Do(s)
Spec == Init /\ [][Next]_vars
View == S
EmitC == TRUE
EmitEnd == TRUE
Now(X) == IF Len(hist) >= 0 THEN X ELSE {}
RandomOp == LET k == RandomElement(Now({At(s, 1) : s \in Usable})) IN RandomElement({s \in Usable : At(s, 1) = k})
SimNext == IF Len(hist) < Depth /\ Usable # {} THEN \E s \in {RandomOp} : Do(s) ELSE FALSE
SimSpec == Init /\ [][SimNext]_vars
\* The types of functions and member functions that occur in a type.
RECURSIVE Funs(_)
RECURSIVE FunsIn(_)
FunsIn(a) == IF a = <<>> THEN {} ELSE Funs(Head(a)) \cup FunsIn(Tail(a))
Funs(t) == CASE t.k \in {"w", "q", "A"} -> Funs(t.t)
             [] t.k = "M" -> Funs(t.cl) \cup (IF IsFun(t.t) THEN {<<t.cl, Bare(t.t)>>} \cup FunsIn(Append(Bare(t.t).a, Bare(t.t).r)) ELSE Funs(t.t))
             [] t.k = "F" -> {<<Nil, t>>} \cup FunsIn(Append(t.a, t.r))
             [] t.k = "tm" -> FunsIn(t.a)
             [] t.k = "in" -> Funs(t.p)
             [] OTHER -> {}
\* GCC does not abbreviate the type of a member function when it is that of another function too.
FollowsABI(t) == LET f == Funs(t) IN \A a, b \in f : a[2] = b[2] => a = b
HasSize(t) == IsT(t) /\ Size(t) > 0 /\ FollowsABI(t)
HasObject(t) == HasSize(t) /\ ~IsRef(t)
Obs(w, j) == [w |-> w, p |-> P[j], cpp |-> Cpp(S[j])]
RECURSIVE Observe(_)
Observe(j) == IF j > Len(S) THEN <<>> ELSE (IF HasSize(S[j]) THEN <<Obs("exact", j)>> ELSE <<>>) \o (IF HasObject(S[j]) THEN <<Obs("object", j)>> ELSE <<>>) \o Observe(j + 1)
Observations == Observe(1)
Emit == EmitScripts => (S # <<>> => PrintT("SCRIPT " \o ToJson(Observations)))
\* The program of every entry of the stack makes that entry.
Programs == \A j \in DOMAIN S : Build(P[j]) = S[j]
\* Different types have different names; reading the name gives the type.
Distinct == \A i, j \in DOMAIN S : IsT(S[i]) /\ IsT(S[j]) /\ S[i] # S[j] => Info(S[i]).name # Info(S[j]).name
Reads == \A j \in DOMAIN S : IsT(S[j]) /\ Demangles(S[j]) => LET v == Type(MangledType(S[j])) IN ~v.maybe /\ v.out = TypeText(S[j], FALSE)
=============================================================================
