prop = 'C10'
edits = [('src/utils/match.cxx', "      while (masklen-- > 0)\n        if (*m++ != '*')\n          return false;\n      return true;", "      return masklen == 0 || (masklen == 1 && *m == '*');")]
needs = 'A mask that ends on two or more asterisks after the last letter of the label.'
breaks = 'A mask like NOTICE** does not match NOTICE.'
demo = r'''
#include <cstddef>
#include "match.h"
#include <cstring>
#include <cstdio>
static bool m(char const* mask, char const* name) { return libcwd::_private_::match(mask, strlen(mask), name); }
int main()
{
  return !(m("NOTICE*", "NOTICE") && m("NOTICE", "NOTICE") && !m("NOTICEx", "NOTICE") && m("NOTICE**", "NOTICE") && m("**", "NOTICE"));
}
'''
