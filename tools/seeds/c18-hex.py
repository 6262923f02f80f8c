prop = 'C18'
edits = [('src/utils/char2str.cxx', "  int xval = (unsigned char)c;", "  int xval = c < 0 ? 256 + c : c & 0x1f;")]
needs = 'The character 127.'
breaks = 'Character 127 is printed as \\x1F.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/buf2str.h>
#include <sstream>
int main()
{
  std::ostringstream os;
  os << libcwd::buf2str("\x80\xff\x01\x1f\x7f\\\n", 7);
  return os.str() != "\\x80\\xFF\\x01\\x1F\\x7F\\\\\\n";
}
'''
