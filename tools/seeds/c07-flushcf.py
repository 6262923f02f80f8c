prop = 'C07'
edits = [('src/debug.cxx', """          !__libcwd_tsd.recursive_fatal // Flush ostream after printing this when there is no recursive loop yet.
""", """          !__libcwd_tsd.recursive_fatal && output_state_stack.size() == 0 // Flush ostream after printing this when there is no recursive loop yet.
""")]
needs = 'DoutFatal in the arguments of another debug statement, with an ostream that is buffered.'
breaks = 'The message of a nested DoutFatal is not flushed before the process ends.'
run = '''cd "$T"; ulimit -c 0; timeout 60 ./demo; cat out; grep -q "the message" out\n'''
demo = r'''
#include <libcwd/debug.h>
#include <fstream>
static int broken() { DoutFatal(dc::fatal, "the message"); return 0; }
int main()
{
  std::ofstream f("out");
  Debug(libcw_do.set_ostream(&f));
  Debug(libcw_do.on());
  Debug(dc::notice.on());
  Dout(dc::notice, "x " << broken());
}
'''
