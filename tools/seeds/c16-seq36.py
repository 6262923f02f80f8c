prop = 'C16'
edits = [('include/cwd_demangle.h', "            value = value * 36 + c - '0';", "            value = value * 10 + c - '0';")]
needs = 'A declaration with more than 37 substitutable components, that refers back to one of the last.'
breaks = 'A substitution S10_ and up is replaced with the wrong type.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/demangle.h>
#include <iostream>
#include <string>
int main()
{
  std::string out, in = "_Z1f";
  for (int i = 0; i < 50; ++i) in += "3C" + std::to_string(i + 10);
  in += "S10_";         // The 38th: C47.
  libcwd::demangle_symbol(in.c_str(), out);
  std::cout << out << '\n';
  return out.find(", C59, C47)") == std::string::npos;
}
'''
