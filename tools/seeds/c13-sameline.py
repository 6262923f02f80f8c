prop = 'C13'
edits = [('src/location.cxx', "    clear();\n    if ((known_ = prototype.known_))\n    {\n      filepath_ = prototype.filepath_;\n      filename_ = prototype.filename_;\n      line_ = prototype.line_;\n    }\n    else\n      initialization_delayed_ = prototype.initialization_delayed_;\n    object_file_name_ = prototype.object_file_name_;\n    function_name_ = prototype.function_name_;\n  }\n  return *this;",
 "    // Nothing to do when this is already the same location.\n    if (known_ && prototype.known_ && line_ == prototype.line_ && function_name_ == prototype.function_name_)\n      return *this;\n    clear();\n    if ((known_ = prototype.known_))\n    {\n      filepath_ = prototype.filepath_;\n      filename_ = prototype.filename_;\n      line_ = prototype.line_;\n    }\n    else\n      initialization_delayed_ = prototype.initialization_delayed_;\n    object_file_name_ = prototype.object_file_name_;\n    function_name_ = prototype.function_name_;\n  }\n  return *this;")]
needs = 'Assigning a location to one with the same line and function that does not own its own path, and later destroying the owner of that.'
breaks = 'The target keeps the path of another object, that is freed while the target is still used; the path of the source is not taken over.'
demo = r'''
#include <libcwd/debug.h>
#include <memory>
#include <string>
using libcwd::Location;
__attribute__((noinline)) void* f() { return __builtin_return_address(0); }
int main()
{
  Debug(libcwd::main_reached());
  void* pc = (char*)f() - 1;
  Location first(pc);
  if (!first.is_known()) return 0;      // No debug info.
  size_t const len = first.filepath_length();
  auto owner = std::make_unique<Location>(first);       // Takes over the path.
  auto other = std::make_unique<Location>(pc);          // Same place, own path.
  first = *other;                                       // Must now own that path.
  other.reset();
  owner.reset();
  char* a = new char[len + 1];
  memset(a, 'x', len);
  a[len] = 0;
  Location again(pc);
  return first.file() != again.file() || *a != 'x';
}
'''
