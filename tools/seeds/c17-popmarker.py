prop = 'C17'
edits = [('src/debug.cxx', "  if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))\n    str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);\n  memmove(str_ + len, str_, size_ + 1);", "  if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))\n    str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);\n  memmove(str_ + len, str_, std::min(size_ + 1, default_capacity_));")]
needs = 'Something prepended to a string that is longer than its default capacity.'
breaks = 'The end of the string is lost.'
demo = r'''
#include <libcwd/debug.h>
#include <string>
int main()
{
  auto& m = libcwd::libcw_do.margin();
  std::string s;
  for (int i = 0; i < 30; ++i) { s = std::string(1, 'a' + i % 26) + s; m.prepend(std::string(1, 'a' + i % 26)); }
  for (int i = 0; i < 300; ++i) { s += std::string(1, 'A' + i % 26); m.append(std::string(1, 'A' + i % 26)); }
  m.prepend("x", 1);
  return "x" + s != m.c_str();
}
'''
