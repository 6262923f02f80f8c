// Demangles names with demangle_symbol and demangle_type.  See spec/Mangle.tla.
#include <libcwd/debug.h>
#include <libcwd/demangle.h>
#include "drv.h"
#include <sys/mman.h>
#include <unistd.h>
#include <thread>
#include <vector>

namespace {
using drv::J;

// A string of which the terminating zero is the last byte that can be read.
class Guarded
{
  char* base_;
  size_t len_;
  char* s_;
 public:
  Guarded(std::string const& s)
  {
    size_t page = sysconf(_SC_PAGESIZE), need = (s.size() + 1 + page - 1) / page * page;
    len_ = need + page;
    base_ = (char*)mmap(nullptr, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base_ == MAP_FAILED) abort();
    s_ = base_ + need - s.size() - 1;
    memcpy(s_, s.c_str(), s.size() + 1);
    // Whatever precedes the name is not part of it.
    if (s_ > base_) s_[-1] = 'S';
    mprotect(base_ + need, page, PROT_NONE);
    mprotect(base_, need, PROT_READ);
  }
  ~Guarded() { munmap(base_, len_); }
  char const* str() const { return s_; }
};

void demangle(std::string const& t, char const* in, std::string& out)
{
  if (t == "type")
    libcwd::demangle_type(in, out);
  else
    libcwd::demangle_symbol(in, out);
}

struct Name
{
  std::string t, m, pre, out;
  bool mut;
};

void run(J const& script)
{
  std::vector<Name> names;
  for (J const& op : script["ops"].a)
    names.push_back({op["t"].s, op["m"].s, op.has("pre") ? op["pre"].s : "", "", op.has("mut")});
  for (Name& n : names)
  {
    n.out = n.pre;
    if (n.t == "null")
    {
      libcwd::demangle_symbol(nullptr, n.out);
      std::string out2 = n.pre;
      libcwd::demangle_type(nullptr, out2);
      if (out2 != n.out) n.out = out2 + " " + n.out;
    }
    else
    {
      Guarded in(n.m);
      demangle(n.t, in.str(), n.out);
    }
    drv::emit("{\"e\":\"Op\",\"op\":\"name\",\"t\":" + drv::q(n.t) + ",\"m\":" + drv::q(n.m) + ",\"pre\":" + drv::q(n.pre) + ",\"mut\":" + (n.mut ? "true" : "false") + ",\"out\":" + drv::q(n.out) + "}");
  }
  if (script["cfg"].has("threads"))
  {
    int const T = script["cfg"]["threads"].n;
    std::vector<std::vector<std::string>> bad(T);
    {
      std::vector<std::thread> th;
      for (int k = 0; k < T; ++k)
        th.emplace_back([&, k] {
          // The output is a long string that is used for everything.
          std::string out;
          for (size_t i = 0; i < names.size(); ++i)
          {
            Name const& n = names[(k & 1) ? names.size() - 1 - i : i];
            if (n.t == "null") continue;
            out.assign(n.pre);
            demangle(n.t, n.m.c_str(), out);
            if (out != n.out) bad[k].push_back(n.m + " => " + out);
          }
        });
      for (auto& t : th) t.join();
    }
    std::string b;
    for (auto& v : bad) for (auto& s : v) b += (b.empty() ? "" : ",") + drv::q(s);
    drv::emit("{\"e\":\"Op\",\"op\":\"threads\",\"n\":" + std::to_string(T) + ",\"bad\":[" + b + "]}");
  }
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
