// The program; see spec/Startup.tla.
#include "first.h"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <cstdio>
#include <thread>
namespace {
struct Global
{
  char const* ctor;
  char const* dtor;
  Global(char const* c, char const* d) : ctor(c), dtor(d) { startup::place(ctor); }
  ~Global() { startup::place(dtor); }
};
Global first("A", "a");
Global second("B", "b");
} // namespace
int main()
{
  startup::place("M");
  if (startup::has("P"))
  {
    if (!dlopen(PLUG, RTLD_NOW)) { fprintf(stderr, "%s\n", dlerror()); _Exit(90); }
    startup::place("N");
  }
  if (!strcmp(startup::how(), "exit")) exit(0);
  if (!strcmp(startup::how(), "thread")) std::thread([] { exit(0); }).join();
  if (!strcmp(startup::how(), "worker")) std::thread([] { startup::worker(); exit(0); }).join();
  return 0;
}
