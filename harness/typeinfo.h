#pragma once
#include "ti_types.h"
#ifdef TI_STUB
#include <typeinfo>
#include <type_traits>
#include <cstddef>
// Stand-in that uses the same types in the same way, to know whether the types themselves are right.
namespace libcwd {
struct TypeInfo { char const* n; size_t s, r; char const* name() const { return n; } char const* demangled_name() const { return n; } size_t size() const { return s; } size_t ref_size() const { return r; } };
inline TypeInfo const unknown_type_info_c{};
template <typename T> struct holder { static TypeInfo value; };
template <typename T> TypeInfo holder<T>::value{typeid(T).name(), sizeof(T), 0};
template <typename T> TypeInfo const& type_info_of() { return holder<T>::value; }
template <typename T> TypeInfo const& type_info_of(T const&) { return holder<T>::value; }
}
#else
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#endif

struct Info
{
  char const* name;
  char const* dem;
  size_t size, ref;
};
using get_type = Info (*)();

inline Info get(libcwd::TypeInfo const& i) { return {i.name(), i.demangled_name(), i.size(), i.ref_size()}; }

template <typename T>
Info exact() { return get(libcwd::type_info_of<T>()); }

inline void* memory()
{
  alignas(64) static char m[64];
  return m;
}

// The object is not looked at, only its type.
template <typename T>
Info object() { return get(libcwd::type_info_of(*reinterpret_cast<std::add_pointer_t<T>>(memory()))); }

void add(char const* cpp, get_type f);
