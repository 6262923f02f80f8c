prop = 'C03'
edits = [('src/debug.cxx', "    debug_object_tsd_ptr->continued_stack.push(debug_object_tsd_ptr->off_count);\n", "    debug_object_tsd_ptr->continued_stack.push(debug_object_tsd_ptr->continued_stack.size() ? debug_object_tsd_ptr->off_count : 0);\n")]
needs = 'A continued statement that is on, within one that is off.'
breaks = 'The end of the statement that is off is printed (or reported as an error).'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <sstream>
int main()
{
  std::ostringstream os;
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os);
  libcwd::channels::dc::notice.on();
  Dout(dc::debug|continued_cf, "off ");
  Dout(dc::notice|continued_cf, "on ");
  Dout(dc::finish, "end of on");
  Dout(dc::notice|continued_cf, "on ");
  Dout(dc::finish, "end of on");
  Dout(dc::continued, "still off");
  Dout(dc::finish, "end of off");
  std::cout << os.str();
  return os.str() != "NOTICE  : on end of on\nNOTICE  : on end of on\n";
}
'''
