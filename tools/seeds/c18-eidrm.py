prop = 'C18'
edits = [('src/strerrno.cxx', '''    "EWOULDBLOCK", /* Operation would block */
    "ENOMSG", /* No message of desired type */
    "EIDRM", /* Identifier removed */
''', '''    "EWOULDBLOCK", /* Operation would block */
    "EIDRM", /* Identifier removed */
    "ENOMSG", /* No message of desired type */
''')]
needs = 'errno ENOMSG or EIDRM.'
breaks = 'The names of these two errors are exchanged.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/strerrno.h>
#include <cerrno>
#include <cstring>
int main()
{
  return strcmp(libcwd::strerrno(ENOMSG), "ENOMSG") || strcmp(libcwd::strerrno(EIDRM), "EIDRM") || strcmp(libcwd::strerrno(ECHRNG), "ECHRNG");
}
'''
