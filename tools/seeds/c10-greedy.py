prop = 'C10'
edits = [('src/utils/match.cxx', "  while (*n != *m || !match(m, masklen, n))\n    if (*n++ == 0)\n      return false;\n  return true;", "  // Only the first occurrence of what follows the asterisk needs to be tried.\n  while (*n != *m || (masklen > 1 && m[1] != '*' && n[1] != m[1]))\n    if (*n++ == 0)\n      return false;\n  return match(m, masklen, n);")]
needs = 'A label in which the text that follows an asterisk in the mask occurs partly before it occurs completely.'
breaks = 'A mask like *ICE does not match ICICLEICE.'
demo = r'''
#include <cstddef>
#include "match.h"
#include <cstring>
static bool m(char const* mask, char const* name) { return libcwd::_private_::match(mask, strlen(mask), name); }
int main()
{
  return !(m("*ICE", "NOTICE") && m("N*E", "NOTICE") && m("*A*", "MALLOC") && m("*ICE", "ICICE") && m("*AB", "ABAB") && !m("*AB", "ABA"));
}
'''
