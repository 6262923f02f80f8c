prop = 'C15'
edits = [('src/dwarf.cxx', "    if (iter != object_files_r->end() && iter->second.start_addr() <= addr)\n      object_file = iter->second.object_file();", "    if (iter != object_files_r->end() && (iter->second.start_addr() <= addr || iter->second.object_file()->get_lbase() - addr < 0x4000))\n      object_file = iter->second.object_file();")]
needs = 'An address in an object that was unloaded, or in no object at all, shortly before the place where another object starts.'
breaks = 'The address is attributed to the object that follows it.'
demo = r'''
#include <libcwd/debug.h>
#include <link.h>
#include <vector>
#include <algorithm>
static std::vector<std::pair<uintptr_t, uintptr_t>> segs;      // start, end
static std::vector<uintptr_t> bases;
static int cb(dl_phdr_info* i, size_t, void*)
{
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_memsz)
      segs.emplace_back(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
  if (i->dlpi_addr) bases.push_back(i->dlpi_addr);
  return 0;
}
int main()
{
  Debug(libcwd::main_reached());
  dl_iterate_phdr(cb, nullptr);
  for (uintptr_t b : bases)
  {
    uintptr_t a = b - 16;
    if (std::any_of(segs.begin(), segs.end(), [a](auto& s) { return s.first <= a && a < s.second; })) continue;
    libcwd::Location l((void*)a);
    if (l.object_file()) return 1;
  }
  return 0;
}
'''
