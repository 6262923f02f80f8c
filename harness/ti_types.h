// The types that the type_info_of program is about.  See spec/TypeInfo.tla: NameTable, TemplateTable, ValueTable.
#pragma once
#include <functional>
#include <memory>
struct A { char c[64]; auto method() const { struct Loc2 { char c[13]; }; return Loc2(); } };
struct S { char c[3]; };
struct DNS { char c[5]; };
struct S0_ { char c[7]; };
struct KS1_ { char c[9]; };
struct RKA3_PS { char c[11]; };
namespace N {
struct A { char c[2]; };
struct S { struct S_ { char c[6]; }; };
enum e : signed char { };
template <typename T, auto v> struct W { char c[20]; };
} // namespace N
struct Big { char c[70001]; };
enum E { };
union U { double d; char c[8]; };
struct I;
struct Poly { virtual ~Poly(); long n; };
struct Empty { };
namespace { struct Anon { char c[10]; }; }
template <typename T, typename U> struct Pair { using first = T; using second = U; };
inline auto function()
{
  struct Loc1 { char c[12]; };
  using First = Loc1;
  {
    struct Loc1 { char c[14]; };
    return Pair<First, Loc1>();
  }
}
using Loc1_ = decltype(function())::first;
using Loc1_0_ = decltype(function())::second;
using Loc2_ = decltype(A().method());
template <typename T> struct X { char c[17]; struct In { char c[21]; }; };
template <typename T, typename U> struct YS { char c[18]; };
template <auto v> struct V { char c[19]; };
template <template <typename> class T> struct TT { char c[15]; };
extern int x;
void h(A, A*);

template <typename T> using Ptr = T*;
template <typename T> using Ref = T&;
template <typename T> using RRef = T&&;
template <typename T> using QualK = T const;
template <typename T> using QualV = T volatile;
template <typename T> using QualVK = T const volatile;
template <typename T, int n> using Arr = T[n];
template <typename T> using ArrU = T[];
template <typename R, typename... P> using Fun = R(P...);
template <typename R, typename... P> using FunE = R(P..., ...);
template <typename R, typename... P> using FunK = R(P...) const;
template <typename R, typename... P> using FunVK = R(P...) const volatile;
template <typename R, typename... P> using FunEK = R(P..., ...) const;
template <typename R, typename... P> using FunEVK = R(P..., ...) const volatile;
template <typename C, typename T> using Mem = T C::*;
