prop = 'C22'
edits = [('src/dwarf.cxx', "  Dwarf_Line* line = dwarf_getsrc_die(&cu_die, addr - lbase);\n", """  Dwarf_Line* line = dwarf_getsrc_die(&cu_die, addr - lbase);
  // Lookups are mostly of return addresses: the call is the last instruction of the previous line.
  Dwarf_Addr line_addr;
  if (line && inline_scope.found && dwarf_lineaddr(line, &line_addr) == 0 && line_addr == addr - lbase)
    if (Dwarf_Line* previous = dwarf_getsrc_die(&cu_die, addr - lbase - 1))
      line = previous;
""")]
needs = 'The address of the first instruction of a source line, inside an inlined function.'
breaks = 'The source line (or file) is that of the code before it.'
flags = '-O2 -g'
demo = r'''
#include <libcwd/debug.h>
#include <cstring>
extern "C" { extern char first_one[], second_one[]; }
inline __attribute__((always_inline)) void inner()
{
#line 1000 "demo.cpp"
  asm volatile(".globl first_one\nfirst_one: nop\nnop");
#line 1010 "demo.cpp"
  asm volatile(".globl second_one\nsecond_one: nop\nnop");
}
__attribute__((noinline, noclone)) void outer()
{
  inner();
  asm volatile("");
}
int main()
{
  Debug(libcwd::main_reached());
  outer();
  libcwd::Location a(first_one), b(second_one), c(second_one + 1), d(first_one + 1);
  return a.line() != 1000 || b.line() != 1010 || c.line() != 1010 || d.line() != 1000;
}
'''
