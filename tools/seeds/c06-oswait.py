prop = 'C06'
edits = [('include/libcwd/DebugObject.inl.h', """  LockInterfaceBase* old_mutex = mutex_;
  real_os_ = os;
  if (old_mutex)
  {
    // LOCK ORDER: state_mutex_ -> LockInterfaceBase
    old_mutex->lock(); // Make sure all other threads left this critical area.
    old_mutex->unlock();
  }""", """  real_os_ = os; // The lock stays the same.""")]
needs = 'A thread that is writing when another thread replaces the ostream while keeping the lock.'
breaks = 'set_ostream() returns while the previous ostream is still being written to.'
flags = '-pthread'
demo = r'''
#include <libcwd/debug.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <sstream>
#include <thread>
static std::atomic<bool> busy, seen;
struct Slow : std::streambuf
{
  int overflow(int c) override { return c; }
  std::streamsize xsputn(char const*, std::streamsize n) override
  {
    busy = true; seen = true;
    std::this_thread::sleep_for(std::chrono::milliseconds(700));
    busy = false;
    return n;
  }
};
static std::mutex l1;
int main()
{
  Slow slow;
  std::ostream os1(&slow);
  std::ostringstream os2;
  Debug(libcw_do.set_ostream(&os1, &l1));
  std::thread a([] { Debug(libcw_do.on()); Debug(dc::notice.on()); Dout(dc::notice, "text"); });
  while (!seen) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  while (libcwd::channels::dc::warning.is_on()) Debug(dc::warning.off());
  Debug(libcw_do.set_ostream(&os2));
  bool wrong = busy;
  a.join();
  return wrong;
}
'''
