// Replays insertions of overlapping symbols; see spec/SymbolRanges.tla.
#include "sys.h"
#include "dwarf_symbol_ranges.h"
#include "drv.h"

namespace {
using drv::J;
void run(J const& script)
{
  using namespace libcwd::dwarf;
  // The addresses of the specification, spread over the real address space.
  uintptr_t base = 0, step = 1;
  switch (script["cfg"]["scale"].i())
  {
    case 1: base = 0x1000; step = 16; break;
    case 2: base = 0x7f1200000000ull; step = 0x30; break;
    case 3: base = 0xfffffffff0000000ull; step = 0x100000; break;
    case 4: base = 0x100; step = 0x200000001ull; break;
  }
  auto real = [&](long a) -> uintptr_t { return base + (uintptr_t)a * step; };
  auto back = [&](uintptr_t x) -> long { return (x - base) % step ? -1 : (long)((x - base) / step); };
  FunctionSymbolRanges ranges;
  Dwarf_Die die{};
  die.addr = (void*)1;
  static char names[64][8];
  int n = 0;
  for (J const& op : script["ops"].a)
  {
    snprintf(names[n], 8, "f%d", n + 1);
    bool dwarf = op["dwarf"].b();
    bool ret = insert_function_symbol_range(ranges, real(op["s"].i()), real(op["en"].i()), names[n], dwarf ? &die : nullptr);
    ++n;
    std::string f;
    for (auto const& [key, r] : ranges)
    {
      f += std::string(f.empty() ? "" : ",") + "{\"key\":" + std::to_string(back(key)) + ",\"s\":" + std::to_string(back(r.start_addr())) +
           ",\"en\":" + std::to_string(back(r.end_addr())) + ",\"n\":" + std::to_string(atoi(r.name() + 1)) +
           ",\"size\":" + std::to_string(r.size() % step ? -1 : (long)(r.size() / step)) + ",\"dwarf\":" + (r.is_elf_symbol() ? "false" : "true") + "}";
    }
    drv::emit("{\"e\":\"Op\",\"s\":" + std::to_string(op["s"].i()) + ",\"en\":" + std::to_string(op["en"].i()) + ",\"dwarf\":" + (dwarf ? "true" : "false") +
              ",\"ret\":" + (ret ? "true" : "false") + ",\"frags\":[" + f + "]}");
  }
  _exit(0);
}
} // namespace

int main(int argc, char** argv) { return drv::run_all(argc, argv, run); }
