// A library (or the part of the driver) with one function, of which the address is looked up.
// -DLIB=A [-DNEST="path"]
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#include <dlfcn.h>
extern volatile int verif_sink __attribute__((visibility("hidden")));
volatile int verif_sink;
#include STR(CAT(line_, LIB).h)
extern "C" __attribute__((visibility("default"))) void* CAT(verif_addr_, LIB)() { return (void*)((char*)(void*)&LIB::f + 5); }
#ifdef NEST
namespace {
struct Nest
{
  void* h;
  Nest() { h = dlopen(NEST, RTLD_NOW); }
  ~Nest() { if (h) dlclose(h); }
} nest;
}
#endif
