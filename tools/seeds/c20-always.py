prop = 'C20'
edits = [('src/debug.cxx', "    if (debug_object.always_flush_is_on() || ((mask & flush_cf) != 0))\n      current->mask |= flush_cf;", "    // When always_flush is on then the enclosing statement is flushed anyway.\n    if ((mask & flush_cf) != 0)\n      current->mask |= flush_cf;")]
needs = 'A nested statement while always_flush is on, after which it is turned off before the enclosing statement ends.'
breaks = 'The text of the nested statement that had to be flushed is not delivered when its line is written.'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <sstream>
#include <mutex>
struct Buf : std::stringbuf { int flushed = 0; int sync() override { ++flushed; return 0; } };
Buf buf;
std::ostream os(&buf);
int after() { Dout(dc::notice, "nested"); libcwd::libcw_do.always_flush_off(); return 1; }
int main()
{
  Debug(libcwd::main_reached());
  libcwd::libcw_do.on();
  static std::mutex m;
  libcwd::libcw_do.set_ostream(&os, &m);
  libcwd::channels::dc::notice.on();
  libcwd::libcw_do.always_flush_on();
  // The nested statement is written to the real stream before the enclosing one.
  Dout(dc::notice, "outer " << after());
  int with = buf.flushed;
  return with != 2;
}
'''
