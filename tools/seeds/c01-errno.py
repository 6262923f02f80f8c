prop = 'C01'
edits = [('src/debug.cxx', "    current->buffer.continued();\n    errno = saved_errno;\n", "    current->buffer.continued();\n")]
needs = 'A statement with error_cf that interrupts continued output, while writing to the stream changes errno.'
breaks = 'The errno printed by error_cf is no longer the one at the start of the statement.'
demo = r'''
#include <libcwd/debug.h>
#include <iostream>
#include <sstream>
#include <cerrno>
// A stream whose writes fail over to something else and leave errno changed, as any write to a device may.
struct Buf : std::stringbuf
{
  std::streamsize xsputn(char const* s, std::streamsize n) override { errno = EAGAIN; return std::stringbuf::xsputn(s, n); }
  int_type overflow(int_type c) override { errno = EAGAIN; return std::stringbuf::overflow(c); }
};
int main()
{
  Buf buf;
  std::ostream os(&buf);
  libcwd::libcw_do.on();
  libcwd::libcw_do.set_ostream(&os);
  libcwd::channels::dc::notice.on();
  Dout(dc::notice|continued_cf, "open...");
  errno = ENOENT;
  Dout(dc::notice|error_cf, "failed");
  Dout(dc::finish, "closed");
  std::cout << buf.str();
  return buf.str().find("failed: ENOENT") == std::string::npos;
}
'''
