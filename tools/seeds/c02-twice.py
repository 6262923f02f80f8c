prop = 'C02'
edits = [('src/debug.cxx', "        debug_object.unfinished_oss_->unfinished_already_printed_ = true;\n", "")]
needs = 'A continued statement of one thread is interrupted first by another thread and then by that thread itself.'
breaks = 'A second <unfinished> is printed, on a line of its own.'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
int main()
{
  std::ostringstream os;
  std::mutex m;
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os, &m);
  libcwd::channels::dc::notice.on();
  Dout(dc::notice|continued_cf|flush_cf, "one ");
  std::thread([]{ Debug(libcwd::init_thread("x")); Debug(libcwd::libcw_do.on()); libcwd::channels::dc::notice.on(); Dout(dc::notice, "other"); }).join();
  Dout(dc::notice, "nested");
  Dout(dc::finish, "two");
  std::string s = os.str();
  std::cout << s;
  size_t n = 0, p = 0;
  while ((p = s.find("<unfinished>", p)) != std::string::npos) ++n, ++p;
  return n != 1;
}
'''
