prop = 'C06'
edits = [('include/libcwd/DebugObject.inl.h', """  std::lock_guard<std::mutex> lock(state_mutex_);
  std::ostream* locked_os = os ? os : real_os_;
  *locked_mutex_out = mutex_;
  if (mutex_)
  {
    // LOCK ORDER: state_mutex_ -> LockInterfaceBase
    mutex_->lock();
  }
  return locked_os;""", """  std::unique_lock<std::mutex> lock(state_mutex_);
  std::ostream* locked_os = os ? os : real_os_;
  LockInterfaceBase* selected_mutex = mutex_;
  *locked_mutex_out = selected_mutex;
  // Do not block other threads while waiting for the stream.
  lock.unlock();
  if (selected_mutex)
    selected_mutex->lock();
  return locked_os;""")]
needs = 'A thread that starts to print (selected the destination, does not have its lock yet) when another thread replaces the destination.'
breaks = 'After set_ostream() returned, the previous lock and ostream are still used.'
flags = '-pthread'
demo = r'''
#include <libcwd/debug.h>
#include <atomic>
#include <chrono>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
static std::atomic<bool> arrived, dead, used_dead;
static thread_local bool printer;
struct Lock
{
  std::mutex m;
  void lock()
  {
    if (printer)
    {
      arrived = true;
      for (int i = 0; i < 1000 && !dead; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      if (dead) used_dead = true;
    }
    m.lock();
  }
  bool try_lock() { return m.try_lock(); }
  void unlock() { m.unlock(); }
};
static Lock l1;
static std::mutex l2;
static std::ostringstream os1, os2;
int main()
{
  Debug(libcw_do.set_ostream(&os1, &l1));
  std::thread a([] { Debug(libcw_do.on()); Debug(dc::notice.on()); printer = true; Dout(dc::notice, "text"); });
  while (!arrived) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  Debug(libcw_do.set_ostream(&os2, &l2));
  dead = true;
  a.join();
  return used_dead;
}
'''
