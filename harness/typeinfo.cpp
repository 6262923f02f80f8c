// Asks type_info_of for the information about types.  See spec/TypeInfo.tla.
// The types are in a table that is generated from the scripts (checks/typeinfo.py).
#include "drv.h"
#include "typeinfo.h"
#include <sys/syscall.h>
#include <atomic>
#include <thread>
#include <vector>

int x;
void h(A, A*) { }
Poly::~Poly() { }

#ifdef __SANITIZE_THREAD__
// The first data race is enough.
extern "C" void __tsan_on_report(void*)
{
  drv::emit("{\"e\":\"Op\",\"op\":\"races\",\"n\":1}");
  syscall(SYS_exit_group, 0);
}
#endif

namespace {
using drv::J;

std::string str(char const* s) { return s ? s : ""; }

std::string show(Info const& i)
{
  return "\"name\":" + drv::q(str(i.name)) + ",\"dem\":" + drv::q(str(i.dem)) + ",\"size\":" + std::to_string(i.size) + ",\"ref\":" + std::to_string(i.ref);
}

Info unknown()
{
  return get(libcwd::unknown_type_info_c);
}

std::map<std::string, get_type>& table()
{
  static std::map<std::string, get_type> t = {{"unknown ", &unknown}};
  return t;
}

get_type find(J const& op)
{
  auto f = table().find(op["w"].s + " " + op["cpp"].s);
  if (f == table().end())
  {
    fprintf(stderr, "no such type: %s\n", op["cpp"].s.c_str());
    _exit(97);
  }
  return f->second;
}

// What was reported before main() was reached.
std::map<get_type, Info>& early()
{
  static std::map<get_type, Info> m;
  return m;
}

void run(J const& script)
{
  auto const& ops = script["ops"].a;
  if (script["cfg"].has("threads"))
  {
    // Half of the threads want to know the same for the first time at the same moment, while the other half wants to know
    // the same about something else.
    int const T = script["cfg"]["threads"].n;
    std::vector<std::vector<Info>> got(T, std::vector<Info>(ops.size()));
    {
      std::vector<get_type> f;
      for (J const& op : ops) f.push_back(find(op));
      std::atomic<size_t> here(0);
      std::vector<std::thread> th;
      for (int k = 0; k < T; ++k)
        th.emplace_back([&, k] {
          for (size_t i = 0; i < ops.size(); ++i)
          {
            here.fetch_add(1, std::memory_order_relaxed);
            while (here.load(std::memory_order_relaxed) < (i + 1) * T) ;
            size_t j = k < T / 2 ? i : ops.size() - 1 - i;
            got[k][j] = f[j]();
          }
        });
      for (auto& t : th) t.join();
    }
    std::string bad;
    for (size_t i = 0; i < ops.size(); ++i)
    {
      std::string last = show(find(ops[i])());
      for (int k = 0; k < T; ++k)
        if (show(got[k][i]) != last) bad += (bad.empty() ? "" : ",") + drv::q(ops[i]["cpp"].s + ": " + show(got[k][i]));
    }
    drv::emit("{\"e\":\"Op\",\"op\":\"threads\",\"n\":" + std::to_string(T) + ",\"bad\":[" + bad + "]}");
  }
  for (J const& op : ops)
  {
    get_type f = find(op);
    auto e = early().find(f);
    Info i = e != early().end() ? e->second : f();
    if (e != early().end()) early().erase(e);
    std::string p;
    for (J const& s : op["p"].a) p += (p.empty() ? "" : ",") + drv::q(s.s);
    drv::emit("{\"e\":\"Op\",\"op\":\"info\",\"w\":" + drv::q(op["w"].s) + ",\"p\":[" + p + "],\"cpp\":" + drv::q(op["cpp"].s) + "," + show(i) + "}");
  }
  _exit(0);
}
} // namespace

// Called by the constructors of global objects.
void add(char const* cpp, get_type f)
{
  table()[cpp] = f;
  if (getenv("TI_EARLY")) early()[f] = f();
}

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
