// A library that the program loads; see spec/Startup.tla.
#include "first.h"
namespace {
struct Global
{
  Global() { startup::place("P"); }
  ~Global() { startup::place("p"); }
} global;
} // namespace
