prop = 'C22'
edits = [('src/dwarf.cxx', "    add_function_symbol_range(start_pc, end_pc, name, func_die, lbase);\n  }", "    // The other ranges only exist for functions that are split, and are found by their ELF symbol.\n    add_function_symbol_range(start_pc, end_pc, name, func_die, lbase);\n    break;\n  }")]
needs = 'A function of which the compiler moved a part elsewhere (optimized code with an exception handler, or something unlikely).'
breaks = 'The name of the function that contains that part is one with .cold, and its source line and inlined functions are unknown.'
flags = '-O2 -g'
demo = r'''
#include <libcwd/debug.h>
#include <cstring>
extern "C" { extern char in_hot[], in_cold[]; }
volatile int one = 1;
__attribute__((noinline, noclone)) void thrower() { if (one) throw 1; }
__attribute__((noinline, noclone)) void split()
{
  asm volatile(".globl in_hot\nin_hot: nop");
  try { thrower(); } catch (int)
  {
    asm volatile(".globl in_cold\nin_cold: nop");
  }
}
int main()
{
  Debug(libcwd::main_reached());
  split();
  for (char* p : {in_hot, in_cold})
  {
    libcwd::Location l(p);
    if (std::strcmp(l.mangled_function_name(), "_Z5splitv") || !l.is_known()) return 1;
  }
  return 0;
}
'''
