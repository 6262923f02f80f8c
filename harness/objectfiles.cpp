// Replays scripts of loading and unloading shared objects and of lookups in them; see spec/ObjectFiles.tla.
// The libraries lib<X>.so are in the directory of the environment variable OFLIBS.
#include <libcwd/debug.h>
#include "drv.h"
#include <barrier>
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <thread>
#define LIB EXE
#include "oflibs/lib.cpp"
extern "C" void* verif_addr_S();

namespace {
using drv::J;
using libcwd::Location;
std::string const exe_name = program_invocation_short_name;
char const* const libs[] = {"A", "B", "C", "N", "S", "X", "EXE"};
std::mutex addr_mutex;
std::map<std::string, void*> addr;                     // Of every object that was ever loaded.

std::string path(std::string const& l) { return std::string(getenv("OFLIBS")) + "/lib" + l + ".so"; }
std::string base(char const* p)
{
  if (!p) return "";
  std::string s = p;
  size_t i = s.rfind('/');
  if (i != std::string::npos) s = s.substr(i + 1);
  if (s == exe_name) return "EXE";
  if (s.size() > 6 && s.substr(0, 3) == "lib" && s.substr(s.size() - 3) == ".so") return s.substr(3, s.size() - 6);
  return s;
}

// The address in l, if it is or was loaded.
void* address(std::string const& l)
{
  std::lock_guard<std::mutex> lk(addr_mutex);
  auto it = addr.find(l);
  return it == addr.end() ? nullptr : it->second;
}
void know(std::string const& l, void* h)
{
  void* (*f)() = (void* (*)())dlsym(h, ("verif_addr_" + l).c_str());
  if (!f) return;
  void* a = f();
  std::lock_guard<std::mutex> lk(addr_mutex);
  addr[l] = a;
}

std::string look(std::string const& l)
{
  void* a = address(l);
  drv::Ev ev("x");
  ev.f("l", l);
  if (!a) return "";
  Dl_info info;
  ev.f("dl", dladdr(a, &info) ? base(info.dli_fname) : "");
  Location loc(a);
  std::string file;
  if (loc.is_known())
  {
    std::ostringstream os;
    loc.print_filepath_on(os);
    file = os.str() + ":" + std::to_string(loc.line());
  }
  ev.f("obj", loc.object_file() ? base(loc.object_file()->filepath()) : "").f("func", loc.mangled_function_name())
    .f("func2", libcwd::pc_mangled_function_name(a)).f("known", loc.is_known()).f("file", file);
  return "{" + ev.s.substr(std::string("{\"e\":\"x\",").size()) + "}";
}
std::string look_all()
{
  std::string r;
  for (char const* l : libs)
  {
    std::string s = look(l);
    if (!s.empty()) r += (r.empty() ? "" : ",") + s;
  }
  return r;
}

typedef std::map<std::string, std::vector<void*>> Handles;
Handles handles;

void learn_deps(std::string const& l);

bool op_open(J const& op, Handles& hs)
{
  std::string const& l = op["l"].s;
  int fl = 0;
  for (J const& f : op["fl"].a)
    fl |= f.s == "noload" ? RTLD_NOLOAD : f.s == "nodelete" ? RTLD_NODELETE : f.s == "global" ? RTLD_GLOBAL : f.s == "lazy" ? RTLD_LAZY : 0;
  if (!(fl & RTLD_LAZY)) fl |= RTLD_NOW;
  void* h = dlopen(path(l).c_str(), fl);
  if (h)
  {
    hs[l].push_back(h);
    know(l, h);
    learn_deps(l);
  }
  return h;
}
// What l depends on is loaded now too.
void learn_deps(std::string const& l)
{
  for (std::string d : l == "B" || l == "N" ? std::vector<std::string>{"A"} : l == "X" ? std::vector<std::string>{"A", "B", "C"} : std::vector<std::string>{})
    if (void* h = dlopen(path(d).c_str(), RTLD_NOW | RTLD_NOLOAD))
    {
      know(d, h);
      dlclose(h);
    }
}
bool op_close(J const& op, Handles& hs)
{
  std::string const& l = op["l"].s;
  auto& v = hs[l];
  void* h = v.back();
  v.pop_back();
  return dlclose(h) == 0;
}

// Everything that libcwd has to say about this itself is written too.
bool verbose;
std::ostringstream sink;
std::mutex sink_mutex;
void talk()
{
  if (verbose) Debug(libcw_do.on(); libcwd::channels::dc::elfutils.on());
}

void par(J const& progs, Handles& all)
{
  std::barrier start((int)progs.size());
  std::vector<std::thread> ts;
  std::mutex m;
  for (size_t t = 0; t < progs.size(); ++t)
    ts.emplace_back([&, t] {
      Handles hs;
      talk();
      start.arrive_and_wait();
      for (J const& op : progs[t].a)
      {
        std::string r;
        bool res = true;
        if (op["op"].s == "open") res = op_open(op, hs);
        else if (op["op"].s == "close") res = op_close(op, hs);
        else r = look(op["l"].s);
        drv::Ev ev("Step");
        for (auto& p : op.o) ev.raw(p.first.c_str(), drv::raw_str(p.second));
        ev.f("t", (long)t).f("res", res).raw("r", "[" + r + "]").done();
      }
      std::lock_guard<std::mutex> lk(m);
      for (auto& p : hs) for (void* h : p.second) all[p.first].push_back(h);
    });
  for (auto& t : ts) t.join();
}

#include <dirent.h>
int open_files()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

void run(J const& script)
{
  int const fds = open_files();
  bool eager = script["cfg"]["eager"].b();
  verbose = script["cfg"]["verbose"].b();
  if (verbose) Debug(libcw_do.set_ostream(&sink, &sink_mutex));
  talk();
  size_t n = 0;
  for (J const& op : script["ops"].a)
  {
    ++n;
    std::string const& w = op["op"].s;
    bool res = true;
    std::string r;
    if (w == "open") res = op_open(op, handles);
    else if (w == "close") res = op_close(op, handles);
    else if (w == "look") r = look(op["l"].s);
    else if (w == "null" || w == "empty")
    {
      void* h = dlopen(w == "null" ? nullptr : "", RTLD_NOW);
      res = h && dlclose(h) == 0;
    }
    else if (w == "missing") res = dlopen(path("Missing").c_str(), RTLD_NOW);
    else if (w == "par") par(op["progs"], handles);
    else _exit(97);
    if (eager || n == script["ops"].size()) r = look_all();
    drv::Ev ev("Op");
    for (auto& p : op.o) ev.raw(p.first.c_str(), drv::raw_str(p.second));
    ev.f("res", res).raw("r", "[" + r + "]").f("fds", open_files() - fds).done();
  }
  fflush(nullptr);
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  Debug(libcwd::main_reached());
  addr["EXE"] = verif_addr_EXE();
  addr["S"] = verif_addr_S();
  Location l(addr["EXE"]);       // Read the debug information of the driver itself only once.
  return drv::run_all(argc, argv, run);
}
