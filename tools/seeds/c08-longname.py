prop = 'C08'
edits = [('src/init_functions.cxx', "std::string(16 - std::min(15UL, thread_name.length()), ' ')", "std::string(16 - std::min(16UL, thread_name.length()), ' ')")]
needs = 'A thread name of more than 15 characters.'
breaks = 'The margin of a thread with a long name is one narrower than that of the other threads, so that their output does not line up.'
run = '''cd "$T" && printf 'silent = on\\nchannels_default = off\\n' > .libcwdrc && timeout 60 ./demo\n'''
demo = r'''
#include <libcwd/debug.h>
#include <thread>
int main()
{
  Debug(libcwd::init());
  size_t a = 0, b = 0;
  std::thread([&]{ Debug(libcwd::init_thread("worker")); a = libcwd::libcw_do.margin().size(); }).join();
  std::thread([&]{ Debug(libcwd::init_thread("a worker with a long name")); b = libcwd::libcw_do.margin().size(); }).join();
  return a != 16 || b != 16;
}
'''
