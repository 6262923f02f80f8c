prop = 'C21'
edits = [('src/threading.cxx', """    if (!tsd || tsd == main_thread_tsd)
      return;
""", """    if (!tsd)
      return;
"""), ('src/threading.cxx', """  // Under the main-thread-first assumption, a first-use access after main_thread_tsd was set belongs to a
  // worker thread and therefore needs the cleanup guard to delete its TSD at thread exit.
  if (main_thread_tsd)
    (void)current_tsd_cleanup_guard;
""", """  // Construct the cleanup guard, so that the TSD is deleted at thread exit.
  (void)current_tsd_cleanup_guard;
""")]
needs = 'Debug output from the destructor of a global object, in the main thread (thread_local objects of the main thread are destroyed before global objects).'
breaks = 'The state of the main thread (what is on, margin, indentation) is gone when the destructors of global objects run; each is needed: the guard was never constructed for the main thread, and left its state alone.'
demo = r'''
#include <libcwd/debug.h>
#include <sstream>
#include <unistd.h>
std::ostringstream* os = new std::ostringstream;
struct Global
{
  ~Global()
  {
    LibcwDout(libcwd::channels, libcwd::libcw_do, dc::notice, "destructor");
    _exit(os->str() != ">>NOTICE  : main\n>>NOTICE  : destructor\n");
  }
} global;
int main()
{
  Debug(libcw_do.on(); dc::notice.on(); libcw_do.set_ostream(os); libcw_do.margin().append(">>", 2));
  LibcwDout(libcwd::channels, libcwd::libcw_do, dc::notice, "main");
}
'''
