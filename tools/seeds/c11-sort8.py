prop = 'C11'
edits = [('src/debug.cxx', "strncmp((*i)->get_label(), channel.get_label(), WST_max_len) > 0", "strncmp((*i)->get_label(), channel.get_label(), label_len) > 0")]
needs = 'A channel whose label is a prefix of that of a channel that was created before it.'
breaks = 'A label that is a prefix of another one comes after it when it is created later: the order depends on the order of creation, and find_channel() returns the wrong channel.'
demo = r'''
#include <libcwd/debug.h>
#include <string>
#include <vector>
libcwd::Channel a("FOOBAR");
libcwd::Channel b("FOO");
int main()
{
  return libcwd::find_channel("foo") != &a;
}
'''
