// Shared by the parts of the program; see spec/Startup.tla.
#pragma once
namespace startup {
// Does what the script has for this place.
void place(char const* name);
bool has(char const* name);
char const* how();
// Prints something in a new thread.
void worker();
} // namespace startup
