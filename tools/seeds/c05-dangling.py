prop = 'C05'
edits = [('src/debug.cxx', "    if (possible_nonewline_cf)\n      debug_object.unfinished_oss_ = NULL;\n    else\n", "    if (possible_nonewline_cf && debug_object.unfinished_oss_ != this)\n      debug_object.unfinished_oss_ = NULL;\n    else\n")]
needs = 'A continued statement that was written partly already, finished with nonewline_cf, followed by output of another thread.'
breaks = 'The other thread terminates the line with <unfinished> instead of <no newline>, and writes to a deleted buffer.'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
int main()
{
  std::ostringstream os;
  std::mutex m;
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os, &m);
  libcwd::channels::dc::notice.on();
  Dout(dc::notice|continued_cf|flush_cf|nonewline_cf, "one ");
  Dout(dc::finish, "two");
  std::thread([]{ Debug(libcwd::init_thread("x")); Debug(libcwd::libcw_do.on()); libcwd::channels::dc::notice.on(); Dout(dc::notice, "other"); }).join();
  std::cout << os.str();
  return os.str().find("<unfinished>") != std::string::npos || os.str().find("<no newline>") == std::string::npos;
}
'''
