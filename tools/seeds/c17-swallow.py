prop = 'C17'
edits = [('src/debug.cxx', "  size_ = ds.size_;\n  capacity_ = ds.capacity_;\n  default_capacity_ = ds.default_capacity_;", "  size_ = ds.size_;\n  if (capacity_ < ds.capacity_)\n    capacity_ = ds.capacity_;\n  default_capacity_ = ds.default_capacity_;")]
needs = 'push_margin, then a margin that is longer than the capacity, pop_margin, then a margin between both capacities.'
breaks = 'The capacity is larger than the storage after a pop: the next assignment overflows the heap block.'
flags = '-fsanitize=address'
run = 'cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo\n'
demo = r'''
#include <libcwd/debug.h>
#include <string>
#include <cstring>
int main()
{
  libcwd::DebugObject& d = libcwd::libcw_do;
  d.on();
  d.margin().assign("short");
  d.push_margin();
  std::string big(1000, 'x'), mid(900, 'y');
  d.margin().assign(big.c_str(), big.size());
  d.pop_margin();
  if (strcmp(d.margin().c_str(), "short")) return 1;
  d.margin().assign(mid.c_str(), mid.size());
  return strcmp(d.margin().c_str(), mid.c_str()) != 0;
}
'''
