prop = 'C21'
edits = [('src/debug.cxx', """  if (initialized_)
    return; // Already initialized.

  DEBUGDEBUG_CERR("Entering `Channel::NS_initialize""", """  if (initialized_)
  {
    // The constructor of a channel that was already initialized by ST_initialize_globals: correct its initial state.
    __libcwd_tsd.off_cnt_array[index_] = strcmp(label, "WARNING") == 0 ? -1 : 0;
    return;
  }

  DEBUGDEBUG_CERR("Entering `Channel::NS_initialize""")]
needs = 'A channel that is turned on (or off) in the constructor of a global object of a library that is initialized before libcwd.'
breaks = 'The channels of libcwd are turned off again (and dc::warning on) when the constructors of libcwd itself run after initialize().'
demo = r'''
#include <libcwd/debug.h>
#include <sstream>
#include <new>
std::ostringstream* os;
// What happens when initialize() was called before the constructor of a channel in libcwd.
int main()
{
  Debug(libcw_do.on(); dc::notice.on());
  os = new std::ostringstream;
  Debug(libcw_do.set_ostream(os));
  LibcwDout(libcwd::channels, libcwd::libcw_do, dc::notice, "one");
  new (&libcwd::channels::dc::notice) libcwd::Channel("NOTICE");
  LibcwDout(libcwd::channels, libcwd::libcw_do, dc::notice, "two");
  return os->str() != "NOTICE  : one\nNOTICE  : two\n";
}
'''
