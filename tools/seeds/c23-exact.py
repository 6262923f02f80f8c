prop = 'C23'
edits = [('src/utils/attach_gdb.cxx', "  if (len >= sizeof(command))\n", "  if (len > sizeof(command))\n")]
needs = 'A value of the keyword gdb of such a length that the command has exactly as many characters as the buffer.'
breaks = 'A command without its last character is run: the debugger is attached to a different process.'
demo = r"""
#include <libcwd/debug.h>
#include <libcwd/attach_gdb.h>
#include <fstream>
#include <sstream>
#include <thread>
#include <cstring>
#include <cstdlib>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern int libcwd_attach_gdb_hook;
int child()
{
  std::ofstream("gdb") << "#!/bin/sh\necho \"$@\" > args.tmp\nmv args.tmp args\n";
  chmod("gdb", 0755);
  // Makes that the command has exactly 256 characters.
  char rest[100];
  int len = sprintf(rest, " -n -x gdb.cmds /proc/%u/exe %u", getpid(), getpid());
  std::ofstream(".libcwdrc") << "silent = on\ngdb = ./gdb " << std::string(256 - len - 6, 'x') << "\nxterm = %s\nchannels_default = off\n";
  std::ostringstream os;
  Debug(libcwd::main_reached());
  Debug(libcw_do.set_ostream(&os));
  Debug(libcwd::read_rcfile());
  std::thread([] { while (access("args", F_OK)) usleep(10000); *(int volatile*)&libcwd_attach_gdb_hook = 0; }).detach();
  libcwd::attach_gdb();
  std::string arg, last;
  std::ifstream in("args");
  while (in >> arg) last = arg;
  return last == std::to_string(getpid()) ? 0 : 1;
}
int main()
{
  char dir[] = "/tmp/demo-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) return 0;
  pid_t pid = fork();
  if (pid == 0)
    _exit(child());
  int st;
  waitpid(pid, &st, 0);
  for (char const* f : {".libcwdrc", "gdb", "args", "done", "gdb.cmds", "core"}) unlink(f);
  if (chdir("/") == 0) rmdir(dir);
  return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}
"""
