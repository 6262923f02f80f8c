prop = 'C19'
edits = [('src/type_info.cxx', "  std::string out;\n  demangle_type(mangled_name, out);", "  static std::string out;               // Keep the capacity.\n  out.clear();\n  demangle_type(mangled_name, out);")]
needs = 'Two threads that ask for the first time, at the same moment, for the information about two different types.'
breaks = 'The demangled names of the types get mixed up.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#include <thread>
#include <atomic>
#include <string>
#include <utility>
#include <vector>
template<int N> struct VeryLongNameOfATemplate { };
typedef char const* (*F)();
template<int N> char const* get() { return libcwd::type_info_of<VeryLongNameOfATemplate<N>>().demangled_name(); }
template<int... N> std::vector<F> all(std::integer_sequence<int, N...>) { return { &get<N>... }; }
int main()
{
  auto f = all(std::make_integer_sequence<int, 800>());
  std::atomic<int> here(0);
  auto go = [&](int k) { for (int i = 0; i < 400; ++i) { ++here; while (here < 2 * (i + 1)) ; f[2 * i + k](); } };
  std::thread a(go, 0), b(go, 1);
  a.join(); b.join();
  int bad = 0;
  for (int n = 0; n < 800; ++n)
    bad += std::string(f[n]()) != "VeryLongNameOfATemplate<" + std::to_string(n) + ">";
  return bad != 0;
}
'''
