// Writes rcfiles and reads them.  See spec/RcFile.tla.  The working directory is a scratch directory in the one where the driver
// was started; the driver is built such that the default rcfile is ../share/libcwd/libcwdrc.
#include <libcwd/debug.h>
#include "drv.h"
#include <pwd.h>
#include <sys/stat.h>
#include <fstream>
#include <unistd.h>

// The home directory of the user.
extern "C" struct passwd* getpwuid(uid_t)
{
  static struct passwd pw;
  pw.pw_name = (char*)"user";
  pw.pw_dir = (char*)"../pw";
  return &pw;
}

namespace channels = libcwd::channels;
libcwd::Channel c1("AAA");
libcwd::Channel c2("ABB");
libcwd::Channel c3("BAB");
libcwd::Channel c4("Mixed");
libcwd::Channel c5("TWO WORDS");
libcwd::Channel c6("AAAA");
libcwd::Channel c7("LONGLABEL12+");

namespace {
using drv::J;
using libcwd::libcw_do;

struct Lines : std::streambuf
{
  std::string line;
  void put(char c)
  {
    if (c != '\n') { line += c; return; }
    if (!line.compare(0, 7, "WARNING") || !line.compare(0, 5, "FATAL") || !line.compare(0, 8, "COREDUMP")) drv::Ev("Line").f("text", line).done();
    line.clear();
  }
  int overflow(int c) override { put(c); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
};

struct Rc : libcwd::RcFile
{
  std::vector<std::string> handled;
  bool unknown_keyword(std::string const& key, std::string const& value) override
  {
    if (key != "mykey") return true;
    handled.push_back(value);
    return false;
  }
};

std::string trimmed(char const* label)
{
  std::string s = label;
  s.erase(s.find_last_not_of(' ') + 1);
  return s;
}

void write_file(std::string const& name, std::vector<std::string> const& lines, bool last_newline)
{
  std::ofstream f(name);
  for (size_t i = 0; i < lines.size(); ++i) f << lines[i] << (i + 1 < lines.size() || last_newline ? "\n" : "");
}

void run(J const& script)
{
  static int nr;
  std::string top = "rc" + std::to_string(getpid()) + "-" + std::to_string(++nr);
  mkdir(top.c_str(), 0755);
  for (char const* d : {"/cwd", "/home", "/pw", "/share", "/share/libcwd"}) mkdir((top + d).c_str(), 0755);
  if (chdir((top + "/cwd").c_str())) _exit(97);
  Lines buf;
  std::ostream os(&buf);
  libcw_do.set_ostream(&os);
  Debug(libcw_do.on());
  Rc rc;
  std::vector<std::string> files[2];
  int k = 0;
  for (J const& op : script["ops"].a)
  {
    ++k;
    drv::Ev("Op").raw("op", drv::raw_str(op)).done();
    std::string const& w = op["op"].s;
    if (w == "on" || w == "off")
    {
      LibcwdForAllDebugChannels(libcwd::channels,
          if (trimmed(debugChannel.get_label()) == op["c"].s)
          {
            if (w == "on") while (!debugChannel.is_on()) debugChannel.on();
            else debugChannel.off();
          }
      );
    }
    else if (w == "line") files[op["f"].i() - 1].push_back(op["text"].s);
    else if (w == "clear") { files[0].clear(); files[1].clear(); }
    else if (w == "read")
    {
      std::string name = op["named"].b() ? "my.rc" : ".libcwdrc";
      auto path = [&](std::string const& p) { return p == "cwd" ? name : p == "default" ? std::string("../share/libcwd/libcwdrc") : "../" + p + "/" + name; };
      for (std::string p : {"cwd", "home", "pw", "default"}) for (std::string n : {"my.rc", ".libcwdrc"}) { name = n; unlink(path(p).c_str()); rmdir(path(p).c_str()); }
      name = op["named"].b() ? "my.rc" : ".libcwdrc";
      // Something that is not a file must not be mistaken for it.
      if (k % 3 == 0) for (std::string p : {"cwd", "home", "pw"}) mkdir(path(p).c_str(), 0755);
      auto put = [&](std::string const& p, std::vector<std::string> const& lines) { rmdir(path(p).c_str()); write_file(path(p), lines, k % 2); };
      for (J const& p : op["also"].a) put(p.s, {"channels_default = on", "xterm = " + p.s});
      put(op["at"].s, files[0]);
      unlink("../override");
      if (op["ovr"].s == "file") write_file("../override", files[1], k % 2);
      if (op["named"].b()) setenv("LIBCWD_RCFILE_NAME", "my.rc", 1); else unsetenv("LIBCWD_RCFILE_NAME");
      if (op["home"].s == "set") setenv("HOME", "../home", 1); else if (op["home"].s == "empty") setenv("HOME", "", 1); else unsetenv("HOME");
      if (op["ovr"].s == "none") unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME"); else setenv("LIBCWD_RCFILE_OVERRIDE_NAME", "../override", 1);
      rc.handled.clear();
      rc.read();
      std::string on;
      LibcwdForAllDebugChannels(libcwd::channels, if (debugChannel.is_on()) on += (on.empty() ? "" : ",") + drv::q(trimmed(debugChannel.get_label())));
      std::string handled;
      for (auto& h : rc.handled) handled += (handled.empty() ? "" : ",") + drv::q(h);
      drv::Ev("Done").raw("on", "[" + on + "]").f("gdb", rc.gdb_bin()).f("xterm", rc.konsole_command()).raw("handled", "[" + handled + "]").done();
    }
  }
  static std::ofstream null("/dev/null");
  libcw_do.set_ostream(&null);
}

} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
