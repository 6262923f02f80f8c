prop = 'C04'
edits = [('include/libcwd/DebugObject_ThreadSpecificData.h', "  DebugStringStackElement* marker_stack;", "  static inline thread_local DebugStringStackElement* marker_stack;")]
needs = 'Two debug objects, whose markers are pushed and popped in an interleaved order.'
breaks = 'The markers of the debug objects of a thread are on one stack: pop_marker gives a debug object the marker of another.'
demo = r'''
#include <libcwd/debug.h>
#include <string>
libcwd::DebugObject other;
int main()
{
  auto& a = libcwd::libcw_do;
  a.marker().assign("|a|");
  other.marker().assign("|b|");
  a.push_marker(); a.marker().assign("1");
  other.push_marker(); other.marker().assign("2");
  a.pop_marker();
  other.pop_marker();
  return std::string(a.marker().c_str()) != "|a|" || std::string(other.marker().c_str()) != "|b|";
}
'''
