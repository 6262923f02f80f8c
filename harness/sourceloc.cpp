// Looks up the code of generated programs (SourceLoc).
#include <libcwd/debug.h>
#include "drv.h"
#include <dlfcn.h>
#include <thread>
#include <atomic>

volatile int verif_sink = 1;
__attribute__((cold)) void verif_cold() { asm volatile(""); }

struct Entry { char* a; char* b; long id; };
// Those of this executable, if any.
extern "C" Entry* verif_begin() __attribute__((weak));
extern "C" Entry* verif_end() __attribute__((weak));

namespace {
int base;
std::vector<std::pair<int, char*>> returns;
std::vector<std::pair<std::string, char*>> starts;
std::string object;

struct Result
{
  std::string name, phys, file;
  bool known = false, obj = false;
  long line = 0;
  bool operator==(Result const&) const = default;
};

// Everything that libcwd has to say about this itself is written too.
bool verbose;
std::ostringstream sink;
std::mutex sink_mutex;
void talk()
{
  if (verbose) Debug(libcw_do.on(); libcwd::channels::dc::elfutils.on());
}

Result look(char* addr)
{
  Result r;
  libcwd::Location loc(addr);
  r.name = loc.mangled_function_name();
  r.phys = libcwd::pc_mangled_function_name(addr);
  r.known = loc.is_known();
  if (r.known)
  {
    std::ostringstream os;
    loc.print_filepath_on(os);
    r.file = os.str();
    r.line = loc.line();
  }
  r.obj = loc.object_file() && loc.object_file()->filename() == object;
  return r;
}

void show(char const* w, std::string const& id, Result const& r)
{
  drv::Ev("Row").f("w", w).raw("id", id).f("name", r.name).f("phys", r.phys).f("known", r.known).f("file", r.file).f("line", r.line).f("obj", r.obj).done();
}

void run(drv::J const& script)
{
  auto const& cfg = script["cfg"];
  Debug(libcwd::main_reached());
  verbose = cfg["verbose"].b();
  if (verbose) Debug(libcw_do.set_ostream(&sink, &sink_mutex));
  talk();
  std::string const& ns = cfg["ns"].s;
  std::string const& lib = cfg["lib"].s;
  base = cfg["base"].n;
  for (auto const& op : script["ops"].a)
  {
    std::string s = "{\"e\":\"Op\"";
    for (auto const& f : op.o) s += "," + drv::q(f.first) + ":" + drv::raw_str(f.second);
    drv::emit(s + "}");
  }
  void* h = dlopen(lib.empty() ? nullptr : lib.c_str(), RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(97); }
  object = lib.substr(lib.rfind('/') + 1);
  auto sym = [&](std::string const& name) { void* p = dlsym(h, name.c_str()); if (!p) { fprintf(stderr, "%s\n", dlerror()); _exit(96); } return p; };
  Entry* b = ((Entry* (*)())sym("verif_begin"))();
  Entry* e = ((Entry* (*)())sym("verif_end"))();
  if (lib.empty())
  {
    Dl_info info;
    dladdr((void*)b, &info);
    object = info.dli_fname;
    object = object.substr(object.rfind('/') + 1);
  }
  std::vector<std::tuple<char const*, std::string, char*>> all;
  for (Entry* t = b; t < e; ++t)
    if (t->id / 1000 == cfg["first"].n) look(t->a);
  for (Entry* t = b; t < e; ++t)
    if (t->id / 1000 == base)
    {
      all.emplace_back("a", std::to_string(t->id % 1000), t->a);
      all.emplace_back("b", std::to_string(t->id % 1000), t->b);
    }
  ((void (*)(int))sym("verif_run_" + ns))(verif_sink);
  for (auto& r : returns) all.emplace_back("r", std::to_string(r.first % 1000), r.second);
  ((void (*)(void (*)(char const*, void*)))sym("verif_fns_" + ns))([](char const* name, void* p) { starts.emplace_back(name, (char*)p); });
  for (auto& s : starts) all.emplace_back("s", drv::q(s.first), s.second);
  // In some order.
  unsigned seed = cfg["seed"].n;
  for (size_t i = all.size(); i > 1; --i) { seed = seed * 1103515245 + 12345; std::swap(all[i - 1], all[(seed >> 8) % i]); }
  std::vector<Result> res(all.size());
  if (cfg.has("threads"))
  {
    std::atomic<int> here(0);
    std::vector<std::vector<Result>> got(2, res);
    std::vector<std::thread> th;
    for (int k = 0; k < 2; ++k)
      th.emplace_back([&, k] {
        talk();
        ++here;
        while (here != 2) ;
        for (size_t i = 0; i < all.size(); ++i)
        {
          size_t j = k ? all.size() - 1 - i : i;
          got[k][j] = look(std::get<2>(all[j]));
        }
      });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < all.size(); ++i)
      for (int k = 0; k < 2; ++k) show(std::get<0>(all[i]), std::get<1>(all[i]), got[k][i]);
  }
  else
    for (auto& a : all) show(std::get<0>(a), std::get<1>(a), look(std::get<2>(a)));
  fflush(nullptr);
  _exit(0);
}
} // namespace

extern "C" void verif_rec(int id)
{
  if (id / 1000 == base) returns.emplace_back(id, (char*)__builtin_return_address(0) - 1);
}

int main(int argc, char** argv) { return drv::run_all(argc, argv, run); }
