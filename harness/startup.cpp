// Runs each script in a new process, in the constructors and destructors of its global objects; see spec/Startup.tla.
#include "drv.h"
#include <sys/stat.h>

namespace {
using drv::J;

std::string slurp(std::string const& f, size_t from)
{
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  return from < s.size() ? s.substr(from) : "";
}

void run(J const& script)
{
  char dir[] = "/tmp/startup-XXXXXX";
  if (!mkdtemp(dir)) _exit(97);
  std::string d = dir;
  std::ofstream(d + "/script") << drv::raw_str(script) << '\n';
  char path[64];
  snprintf(path, sizeof path, "/proc/self/fd/%d", drv::trace_fd);
  char real[4096];
  ssize_t n = readlink(path, real, sizeof real - 1);
  if (n < 0) _exit(97);
  real[n] = 0;
  setenv("VERIF_SCRIPT", (d + "/script").c_str(), 1);
  setenv("VERIF_DIR", dir, 1);
  setenv("VERIF_TRACE", real, 1);
  J const& cfg = script["cfg"];
  if (cfg["nomsg"].b()) setenv("LIBCWD_NO_STARTUP_MSGS", "", 1);
  if (cfg["load"].b()) setenv("LIBCWD_PRINT_LOADING", "1", 1);
  pid_t pid = fork();
  if (pid == 0)
  {
    struct rlimit rl;
    getrlimit(RLIMIT_CORE, &rl);
    if (cfg["core"].i() >= 0) rl.rlim_max = cfg["core"].i() * 1024;
    rl.rlim_cur = 0;
    if (setrlimit(RLIMIT_CORE, &rl)) _exit(89);
    int fd = open((d + "/c").c_str(), O_RDWR | O_CREAT | O_APPEND, 0600);
    dup2(fd, 2);
    if (chdir(dir)) _exit(89);
    alarm(60);
    std::string exe = getenv("STARTUP_DIR") + std::string("/app_") + cfg["order"].s;
    execl(exe.c_str(), exe.c_str(), nullptr);
    _exit(88);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  // What a fatal message was, or anything that should not be there.
  size_t at[4] = {0, 0, 0, 0};
  bool fatal = false;
  {
    std::ifstream in(real);
    std::string line, last;
    while (std::getline(in, line)) last = line;
    drv::Parser ps{last.data(), last.data() + last.size()};
    J e = ps.val();
    if (e.has("at")) { fatal = true; for (int i = 0; i < 4; ++i) at[i] = e["at"][i].n; }
  }
  drv::Ev ev("Tail");
  std::string t = "{\"c\":" + drv::q(fatal ? slurp(d + "/c", at[0]) : "");
  for (int i = 1; i < 4; ++i)
    t += ",\"s" + std::to_string(i) + "\":" + drv::q(fatal ? slurp(d + "/s" + std::to_string(i), at[i]) : "");
  ev.raw("txt", t + "}");
  if (st && !fatal) ev.f("err", slurp(d + "/c", 0));
  ev.done();
  for (char const* f : {"/script", "/c", "/s1", "/s2", "/s3", "/core"}) unlink((d + f).c_str());
  std::string rm = "rm -f " + d + "/core*";
  if (system(rm.c_str())) { }
  rmdir(dir);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
  _exit(WEXITSTATUS(st));
}
} // namespace

int main(int argc, char** argv)
{
  drv::keep_core_limit = true;
  return drv::run_all(argc, argv, run);
}
