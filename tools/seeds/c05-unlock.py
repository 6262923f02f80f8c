prop = 'C05'
edits = [('src/debug.cxx', '''  if (locked_mutex)
  {
    __libcwd_tsd.lock_interface_is_locked = false;
    locked_mutex->unlock();
  }
  if (free_msgbuf)
    free(msgbuf);
''', '''  if (free_msgbuf)
    free(msgbuf);
'''), ('src/debug.cxx', '''  if (do_flush)
    locked_os->flush();
''', '''  if (do_flush)
    locked_os->flush();
  if (locked_mutex)
  {
    __libcwd_tsd.lock_interface_is_locked = false;
    locked_mutex->unlock();
  }
''')]
needs = 'A thread that prints at the very moment that another thread just released the lock after leaving a line open.'
breaks = 'The line that was left open is not terminated: the text of two threads ends up on one line.'
demo = r'''
#include <libcwd/debug.h>
#include <atomic>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
std::atomic<int> phase(0);
struct Lock
{
  std::mutex m;
  bool try_lock() { return m.try_lock(); }
  void lock() { m.lock(); }
  void unlock()
  {
    m.unlock();
    if (phase == 1) { phase = 2; while (phase != 3) ; }
  }
};
int main()
{
  std::ostringstream os;
  Lock lock;
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os, &lock);
  libcwd::channels::dc::notice.on();
  std::thread t([]{
    Debug(libcwd::init_thread("x"));
    Debug(libcwd::libcw_do.on());
    libcwd::channels::dc::notice.on();
    while (phase != 2) ;
    Dout(dc::notice, "other");
    phase = 3;
  });
  phase = 1;
  Dout(dc::notice|nonewline_cf, "one");
  t.join();
  std::cout << os.str();
  return os.str().find("<no newline>\n") == std::string::npos;
}
'''
