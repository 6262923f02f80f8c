// Calls attach_gdb() with commands in the rcfile that are scripts.  See spec/AttachGdb.tla.
// Works in a scratch directory, a subdirectory of the directory where the driver was started.
#include <libcwd/debug.h>
#include <libcwd/attach_gdb.h>
#include "drv.h"
#include <sys/stat.h>
#include <atomic>
#include <thread>
#include <mutex>

extern int libcwd_attach_gdb_hook;

namespace {
using drv::J;
using libcwd::libcw_do;

struct Lines : std::streambuf
{
  std::string line;
  bool probe = false, seen = false;
  void put(char c)
  {
    if (probe) { seen = true; return; }
    if (c != '\n') { line += c; return; }
    drv::Ev("Line").f("text", line).done();
    line.clear();
  }
  int overflow(int c) override { put(c); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
};
Lines lines;
std::ostream out(&lines);
std::mutex out_mutex;
std::ostringstream other;

bool exists(char const* name) { struct stat st; return stat(name, &st) == 0; }

std::vector<std::string> read_lines(char const* name)
{
  std::ifstream f(name);
  std::vector<std::string> r;
  std::string l;
  while (std::getline(f, l)) r.push_back(l);
  return r;
}

std::string list(std::vector<std::string> const& v)
{
  std::string r;
  for (auto& s : v) r += (r.empty() ? "" : ",") + drv::q(s);
  return "[" + r + "]";
}

void script_file(char const* name, std::string const& text)
{
  std::ofstream(name) << text;
  chmod(name, 0755);
}

bool is_on()
{
  lines.probe = true;
  lines.seen = false;
  Dout(dc::always, "is_on");
  lines.probe = false;
  return lines.seen;
}

std::atomic<bool> let_go;

__attribute__((noinline)) void the_caller()
{
  libcwd::attach_gdb();
  asm volatile("");
}

void attach(J const& op)
{
  unlink("args");
  unlink("done");
  std::ofstream("mode") << (op["how"].s == "exit" ? std::to_string(op["code"].n) : op["how"].s) << std::endl;
  drv::Ev("Attach").f("how", op["how"].s).f("code", op["code"].n).f("by", op["by"].s).f("pid", (long)getpid()).done();
  let_go = false;
  // The debugger.
  std::thread gdb([&] {
    while (!exists("args")) usleep(2000);
    usleep(20000);
    let_go = true;
    *(int volatile*)&libcwd_attach_gdb_hook = 0;
  });
  gdb.detach();
  the_caller();
  bool early = !let_go;
  std::ofstream("done").close();
  auto args = read_lines("args");
  auto cmds = read_lines("cmds");
  // Only the last arguments: the value of the keyword gdb has arguments too.
  if (args.size() > 5) args.erase(args.begin(), args.end() - 5);
  if (!cmds.empty() && cmds[0].rfind("b *0x", 0) == 0)
  {
    void* a = (void*)strtoul(cmds[0].c_str() + 3, nullptr, 16);
    if (std::string(libcwd::pc_mangled_function_name(a)).find("the_caller") != std::string::npos) cmds[0] = "b *HERE";
  }
  drv::Ev("Done").raw("args", list(args)).raw("cmds", list(cmds)).f("pid", (long)getpid()).f("on", is_on()).f("early", early).done();
}

void run(J const& script)
{
  char dir[] = "attach-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) _exit(95);
  auto const& cfg = script["cfg"];
  {
    std::ofstream rc(".libcwdrc");
    rc << "silent = on\nchannels_default = off\n";
    if (cfg["set"].b())
    {
      rc << "gdb = " << cfg["gdb"]["v"].s << std::string(cfg["gdb"]["n"].n, 'x') << "\n";
      rc << "xterm = " << cfg["xterm"]["v"].s << (cfg["xterm"]["cmd"].b() ? "%s" : "") << cfg["xterm"]["w"].s << std::string(cfg["xterm"]["n"].n, 'x') << "\n";
    }
  }
  script_file("term", "#!/bin/sh\nwhile [ $# -gt 0 ]; do case \"$1\" in -T) shift 2;; -e) shift;; *) break;; esac; done\nexec \"$@\"\n");
  // The last argument can be a number of x's that do not belong to it.
  script_file("gdb", "#!/bin/sh\nread mode < mode\ncase $mode in\nattach) ;;\nslow) sleep 5.7 ;;\n*) exit $mode ;;\nesac\n"
                     "for a in \"$@\"; do case \"$a\" in xx*|x) ;; *) printf '%s\\n' \"$a\" ;; esac; done > args.tmp\ncp gdb.cmds cmds\nmv args.tmp args\nn=0\nwhile [ ! -e done -a $n -lt 400 ]; do sleep 0.05; n=$((n+1)); done\n");
  Debug(libcwd::main_reached());
  // Read it.
  Debug(libcw_do.set_ostream(&other, &out_mutex));
  Debug(libcwd::read_rcfile());
  Debug(libcw_do.on());
  Debug(libcw_do.set_ostream(&out, &out_mutex));
  bool on = true;
  for (J const& op : script["ops"].a)
  {
    if (op["op"].s == "switch")
    {
      if (on) Debug(libcw_do.off()); else Debug(libcw_do.on());
      on = !on;
      drv::Ev("Switch").done();
    }
    else if (op["by"].s == "thread")
    {
      std::thread t([&] {
        if (on) Debug(libcw_do.on());
        attach(op);
      });
      t.join();
    }
    else
      attach(op);
  }
  fflush(nullptr);
  _exit(0);
}
} // namespace

int main(int argc, char** argv) { return drv::run_all(argc, argv, run); }
