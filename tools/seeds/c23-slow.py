prop = 'C23'
edits = [('src/utils/attach_gdb.cxx', """          pid_t pid3 = waitpid(pid2, &status, WNOHANG);
          if (pid3 == pid2""", """          // The terminal is supposed to be gone by now.
          pid_t pid3 = waitpid(pid2, &status, 0);
          if (pid3 == pid2""")]
needs = 'A debugger that needs more than five seconds to attach.'
breaks = 'attach_gdb() does not return when the debugger lets the program continue, and ends the program once the debugger ends.'
demo = r"""
#include <libcwd/debug.h>
#include <libcwd/attach_gdb.h>
#include <fstream>
#include <sstream>
#include <thread>
#include <cstring>
#include <cstdlib>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern int libcwd_attach_gdb_hook;
int child()
{
  std::ofstream("gdb") << "#!/bin/sh\nsleep 6\ntouch args\nn=0\nwhile [ ! -e done -a $n -lt 100 ]; do sleep 0.1; n=$((n+1)); done\n";
  chmod("gdb", 0755);
  std::ofstream(".libcwdrc") << "silent = on\ngdb = ./gdb\nxterm = %s\nchannels_default = off\n";
  std::ostringstream os;
  Debug(libcwd::main_reached());
  Debug(libcw_do.set_ostream(&os));
  Debug(libcwd::read_rcfile());
  std::thread([] { while (access("args", F_OK)) usleep(10000); *(int volatile*)&libcwd_attach_gdb_hook = 0; }).detach();
  libcwd::attach_gdb();
  std::ofstream("done").close();
  return 0;
}
int main()
{
  char dir[] = "/tmp/demo-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) return 0;
  pid_t pid = fork();
  if (pid == 0)
    _exit(child());
  int st;
  waitpid(pid, &st, 0);
  for (char const* f : {".libcwdrc", "gdb", "args", "done", "gdb.cmds", "core"}) unlink(f);
  if (chdir("/") == 0) rmdir(dir);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
"""
