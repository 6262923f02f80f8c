prop = 'C16'
edits = [('include/cwd_demangle.h', "      value = value * 10 + c - '0';", "      value = c - '0';")]
needs = 'A function template with more than eleven template parameters (the twelfth is T10_).'
breaks = 'The types of the parameters that use the twelfth and later template parameters are those of other template parameters.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/demangle.h>
#include <iostream>
#include <string>
template<class A, class B, class C, class D, class E, class F, class G, class H, class I, class J, class K, class L> void f(A, L) { }
int main()
{
  std::string out;
  libcwd::demangle_symbol("_Z1fIabcdefghijstEvT_T10_", out);
  std::cout << out << '\n';
  return out.find("(signed char, unsigned short)") == std::string::npos;
}
'''
