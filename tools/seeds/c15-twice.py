prop = 'C15'
edits = [('src/dwarf.cxx', "      object_file_data_ts::rat data_r(object_file_data_);\n\n      if (data_r->dwarf_symbols_loaded())\n        return; // Someone else beat us to it.\n\n      object_file_data_ts::wat data_w(data_r);\n      data_w->load_dwarf_symbols(lbase_, debug_info_path);",
 "      object_file_data_ts::wat data_w(object_file_data_);\n      data_w->load_dwarf_symbols(lbase_, debug_info_path);")]
needs = 'Two threads that do the first lookup in an object file at the same moment.'
breaks = 'The debug information is loaded twice: a failed assertion ends the program.'
flags = '-pthread'
demo = r'''
#include <libcwd/debug.h>
#include <dlfcn.h>
#include <thread>
#include <barrier>
#include <vector>
#include <fstream>
#include <unistd.h>
int main()
{
  Debug(libcwd::main_reached());
  std::ofstream("l.cpp") << "extern \"C\" int verif_f() { return 1; }\n";
  if (system("g++ -g -shared -fPIC l.cpp -o l.so")) return 0;
  for (int i = 0; i < 60; ++i)
  {
    std::string n = "./l" + std::to_string(i) + ".so";
    if (system(("cp l.so " + n).c_str())) return 0;
    void* h = dlopen(n.c_str(), RTLD_NOW);
    if (!h) return 0;
    void* f = dlsym(h, "verif_f");
    std::barrier b(4);
    bool bad = false;
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
      ts.emplace_back([&] { b.arrive_and_wait(); libcwd::Location l(f); if (!l.object_file()) bad = true; });
    for (auto& t : ts) t.join();
    if (bad) return 1;
    dlclose(h);
  }
  return 0;
}
'''
