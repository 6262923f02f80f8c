prop = 'C20'
edits = [('src/debug.cxx', "    if (debug_object.always_flush_is_on() || ((mask & flush_cf) != 0))\n      current->mask |= flush_cf;", "    if (output_state_stack.size() == 1 && (debug_object.always_flush_is_on() || ((mask & flush_cf) != 0)))\n      current->mask |= flush_cf;")]
needs = 'flush_cf in a statement that is nested two deep or more.'
breaks = 'The flush request of a statement nested two levels deep does not reach the outermost statement.'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <sstream>
struct Buf : std::stringbuf { size_t flushed = 0; int sync() override { flushed = str().size(); return 0; } };
int main()
{
  Buf buf;
  std::ostream os(&buf);
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os);
  libcwd::channels::dc::notice.on();
  auto inner = []{ Dout(dc::notice|flush_cf, "three"); return "!"; };
  auto middle = [&]{ Dout(dc::notice, "two" << inner()); return "!"; };
  Dout(dc::notice, "one" << middle());
  return buf.flushed != buf.str().size();
}
'''
