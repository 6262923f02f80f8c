prop = 'C15'
edits = [('src/dwarf.cxx', "  if (dwarf_fd_ >= 0)\n  {\n    close(dwarf_fd_);\n    dwarf_fd_ = -1;\n  }", "  if (dwarf_fd_ >= 0 && s_object_files_is_locked_)\n  {\n    close(dwarf_fd_);\n    dwarf_fd_ = -1;\n  }")]
needs = 'A program that loads, looks up in, and unloads shared objects many times.'
breaks = 'The file of each unloaded object stays open, until no file can be opened anymore and locations become unknown.'
demo = r'''
#include <libcwd/debug.h>
#include <dlfcn.h>
#include <fstream>
#include <sys/resource.h>
int main()
{
  Debug(libcwd::main_reached());
  std::ofstream("l.cpp") << "extern \"C\" int verif_f() { return 1; }\n";
  if (system("g++ -g -shared -fPIC l.cpp -o l.so")) return 0;
  struct rlimit r = {64, 64};
  setrlimit(RLIMIT_NOFILE, &r);
  for (int i = 0; i < 100; ++i)
  {
    void* h = dlopen("./l.so", RTLD_NOW);
    if (!h) return 1;
    libcwd::Location l(dlsym(h, "verif_f"));
    if (!l.is_known()) return 1;
    l.clear();
    dlclose(h);
  }
  return 0;
}
'''
