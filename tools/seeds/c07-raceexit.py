prop = 'C07'
edits = [('src/debug.cxx', """      __libcwd_tsd.recursive_fatal = true;
      if (!_private_::claim_fatal_termination_ownership())""", """      __libcwd_tsd.recursive_fatal = true;
      // A core dump takes a while; only one thread should be doing that.
      if ((current->mask & coredump_maskbit) && !_private_::claim_fatal_termination_ownership())""")]
needs = 'A thread that uses dc::fatal while another one is in the middle of terminating with dc::core.'
breaks = 'Two threads end the process: the exit of dc::fatal takes over from the core dump that was already started.'
run = '''cd "$T"; ulimit -c 0; timeout 60 ./demo; r=$?; echo "status $r"; [ $r = 134 ]\n'''
demo = r'''
#include <libcwd/debug.h>
#include <atomic>
#include <csignal>
#include <iostream>
#include <mutex>
#include <thread>
#include <unistd.h>
static std::mutex m;
static std::atomic<bool> go;
static void on_abort(int) { go = true; usleep(1000000); }
int main()
{
  signal(SIGABRT, on_abort);
  libcwd::libcw_do.set_ostream(&std::cerr, &m);
  std::thread t([] { while (!go) usleep(1000); DoutFatal(dc::fatal, "second"); });
  DoutFatal(dc::core, "first");
}
'''
