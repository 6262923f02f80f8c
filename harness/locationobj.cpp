// Replays scripts of operations on libcwd::Location objects; see spec/LocationObj.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <condition_variable>
#include <exception>
#include <mutex>
#include <new>
#include <set>
#include <thread>

namespace alloc {
// The arrays of characters that were allocated while `on`; a Location keeps its path in one.
thread_local bool on;
void* live[4096];
int nlive;
bool mismatch;
bool forget(void* p)
{
  for (int i = 0; i < nlive; ++i)
    if (live[i] == p) { live[i] = live[--nlive]; return true; }
  return false;
}
} // namespace alloc
void* operator new[](size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (alloc::on && alloc::nlive < 4096) alloc::live[alloc::nlive++] = p;
  return p;
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete[](void* p) noexcept { alloc::forget(p); free(p); }
void operator delete[](void* p, size_t) noexcept { alloc::forget(p); free(p); }
void operator delete(void* p) noexcept { if (alloc::forget(p)) alloc::mismatch = true; free(p); }
void operator delete(void* p, size_t) noexcept { if (alloc::forget(p)) alloc::mismatch = true; free(p); }

#define O0 __attribute__((noinline, noclone, optimize("O0")))
#define INL inline __attribute__((always_inline))
O0 void* where() { return (char*)__builtin_return_address(0) - 1; }
std::map<std::string, void*> addrs;

#line 101 "/verif-src/a/fileA.cpp"
O0 void loc_f1() { addrs["f1"] = where();
  volatile int dummy = 0;
  dummy = 1;
  addrs["f1b"] = where();
}
#line 1000000 "/verif-src/a/fileA.cpp"
namespace loc { O0 int f2(int i) { addrs["f2"] = where(); return i; } }
#line 7 "/verif-src/deeper/dir.d/x"
extern "C" O0 void loc_f3() { addrs["f3"] = where(); }
#line 30 "/verif-src/a/inline.h"
namespace loc {
INL void inner()
{
  void* p = where();
  addrs["inl"] = p;
}
INL void outer();
}
#line 40 "/verif-src/a/inline.h"
INL void loc::outer()
{
  inner();
  void* p = where();
  addrs["inl2"] = p;
}
#line 60 "/verif-src/main.cpp"
O0 void use_inline() { loc::outer(); }
#line 54 "/verif-src/a file with spaces.cpp"
namespace loc { template <class X> struct T { O0 void call() {
  addrs["tmpl"] = where(); } }; }
#line 70 "/verif-src/main.cpp"

asm(".text\n.skip 64, 0x90\n.Lverif_nosym:\n.skip 64, 0x90\n.section .data.verif,\"aw\"\n.global verif_nosym\nverif_nosym: .quad .Lverif_nosym\n.text\n");
extern "C" void* verif_nosym;

namespace {
using drv::J;
using libcwd::Location;
std::string const exe_name = program_invocation_short_name;
void* heap_pc;
bool early;

std::string subst(std::string s, std::string const& from, std::string const& to)
{
  size_t p = s.find(from);
  return p == std::string::npos ? s : s.replace(p, from.size(), to);
}
std::string norm_func(char const* f)
{
  std::string s = f;
  return s.rfind("<cleared", 0) == 0 ? "<cleared location>" : s;
}

struct Slot
{
  bool up = false;
  alignas(16) char mem[sizeof(Location)];
  Location& l() { return *(Location*)mem; }
};
std::vector<Slot> slots;

struct Watch { Watch() { alloc::on = true; } ~Watch() { alloc::on = false; } };

std::string look(Slot& s, bool see)
{
  if (!s.up || !see)
    return std::string("{\"up\":") + (s.up ? "true" : "false") + ",\"dangling\":" + (s.up ? "true" : "false") + "}";
  Location const& l = s.l();
  std::ostringstream os;
  os << std::hex << l;
  char pc[40];
  snprintf(pc, sizeof pc, "%p", heap_pc);
  std::string printed = subst(subst(os.str(), exe_name, "EXE"), pc, "PC");
  std::string file, path;
  unsigned line = 0;
  if (l.is_known())
  {
    file = l.file();
    line = l.line();
    std::ostringstream a, b;
    l.print_filename_on(a);
    if (a.str() != file) file += "|" + a.str();
    l.print_filepath_on(b);
    path = b.str();
  }
  drv::Ev ev("x");
  ev.f("up", true).f("dangling", false).f("known", l.is_known()).f("printed", printed).f("func", norm_func(l.mangled_function_name()))
    .f("obj", l.object_file() ? subst(l.object_file()->filename(), exe_name, "EXE") : "")
    .f("pc", l.unknown_pc() == heap_pc ? "PC" : l.unknown_pc() ? "other" : "0").f("delayed", l.initialization_delayed())
    .f("file", file).f("path", path).f("line", (long)line).f("flen", l.filename_length()).f("plen", l.filepath_length());
  return "{" + ev.s.substr(std::string("{\"e\":\"x\",").size()) + "}";
}

void run_op(J const& op)
{
  std::string const& w = op["op"].s;
  long res = -1;
  {
    Slot& s = slots.at(op["i"].i() - 1);
    if (w == "fmt") res = libcwd::location_format((libcwd::location_format_t)op["f"].i());
    else
    {
      void* a = op.has("a") ? addrs.at(op["a"].s) : nullptr;
      Watch watch;
      if (w == "new") { new (s.mem) Location; s.up = true; }
      else if (w == "newat") { new (s.mem) Location(a); s.up = true; }
      else if (w == "copy") { new (s.mem) Location(slots.at(op["j"].i() - 1).l()); s.up = true; }
      else if (w == "assign") s.l() = slots.at(op["j"].i() - 1).l();
      else if (w == "pc") s.l().pc_location(a);
      else if (w == "clear") s.l().clear();
      else if (w == "main") { alloc::on = false; Debug(libcwd::main_reached()); }
      else if (w == "lock") s.l().lock_ownership();
      else if (w == "destroy") { s.l().~Location(); s.up = false; memset(s.mem, 0xee, sizeof s.mem); }
      else _exit(97);
    }
  }
  std::set<int> see;
  for (J const& x : op["see"].a) see.insert(x.i());
  std::string obs = "[";
  for (size_t i = 0; i < slots.size(); ++i) obs += (i ? "," : "") + look(slots[i], see.count(i + 1));
  drv::Ev ev("Op");
  for (auto& p : op.o) ev.raw(p.first.c_str(), drv::raw_str(p.second));
  ev.f("res", res).raw("obs", obs + "]").f("live", early ? 0 : alloc::nlive).done();
  if (alloc::mismatch) _exit(78);
}

struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  std::thread th;       // Last: it uses the others.
  Worker() : th([this] { loop(); }) { }
  void loop()
  {
    std::unique_lock<std::mutex> lk(m);
    for (;;)
    {
      cv.wait(lk, [this] { return (bool)job; });
      job();
      job = nullptr;
      cv.notify_all();
    }
  }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> lk(m);
    job = f;
    cv.notify_all();
    cv.wait(lk, [this] { return !job; });
  }
};

void run(J const& script)
{
  std::map<int, std::unique_ptr<Worker>> workers;
  libcwd::location_format(0);
  slots.resize(script["cfg"]["n"].i(3));
  for (J const& op : script["ops"].a)
  {
    int t = op["t"].i();
    if (t == 0) { run_op(op); continue; }
    auto& w = workers[t];
    if (!w) { w = std::make_unique<Worker>(); w->run([] { libcwd::location_format(0); }); }
    w->run([&] { run_op(op); });
  }
  fflush(nullptr);
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  loc_f1();
  loc::f2(1);
  loc_f3();
  use_inline();
  loc::T<char>().call();
  addrs["lib"] = (char*)(void*)&std::terminate + 1;
  addrs["asm"] = verif_nosym;
  heap_pc = addrs["heap"] = (char*)malloc(64) + 8;
  // With EARLY the scripts start before main_reached() and before any lookup;
  // otherwise the object files are read here, once.
  early = getenv("EARLY");
  if (!early)
  {
    Debug(libcwd::main_reached());
    for (auto& p : addrs) Location l(p.second);
  }
  return drv::run_all(argc, argv, run);
}
