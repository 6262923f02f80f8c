prop = 'C13'
edits = [('include/libcwd/Location.inl.h', "      os << location.filepath_.get() << ':' << std::dec << location.line_;\n    else", "      os << location.filepath_.get() << ':' << location.line_;\n    else")]
needs = 'Printing with show_path on a stream that is in hexadecimal mode.'
breaks = 'The line number is printed in hexadecimal.'
demo = r'''
#include <libcwd/debug.h>
#include <sstream>
using libcwd::Location;
#line 100
__attribute__((noinline)) void* f() { return __builtin_return_address(0); }
int main()
{
  Debug(libcwd::main_reached());
  Location l((char*)f() - 1);
  if (!l.is_known()) return 0;
  libcwd::location_format(libcwd::show_path);
  std::ostringstream a, b;
  a << l;
  b << std::hex << l;
  return a.str() != b.str();
}
'''
