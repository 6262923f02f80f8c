prop = 'C14'
edits = [('include/dwarf_symbol_ranges.h', "    return SymbolRange(start_addr, end_addr, symbol_start_addr_, symbol_end_addr_, name_,", "    return SymbolRange(start_addr, end_addr, start_addr, std::min(end_addr + (start_addr - symbol_start_addr_), symbol_end_addr_), name_,")]
needs = 'Three overlapping symbols: a large one, a small one that cuts it in two, and one in between.'
breaks = 'The left piece of the large symbol counts as a small symbol, and is not replaced by a smaller symbol.'
demo = r'''
#include "dwarf_symbol_ranges.h"
#include <string>
using namespace libcwd::dwarf;
int main()
{
  FunctionSymbolRanges m;
  insert_function_symbol_range(m, 100, 200, "large", nullptr);
  insert_function_symbol_range(m, 130, 140, "small", nullptr);
  insert_function_symbol_range(m, 90, 150, "middle", nullptr);
  auto at = [&](uintptr_t a) -> std::string { auto i = m.upper_bound(a); return i == m.end() || i->second.start_addr() > a ? "" : i->second.name(); };
  return at(95) != "middle" || at(110) != "middle" || at(135) != "small" || at(145) != "middle" || at(160) != "large";
}
'''
