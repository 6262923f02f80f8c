prop = 'C19'
edits = [('include/libcwd/type_info.h', "  static constexpr size_t size = sizeof(T);", "  static constexpr unsigned short size = sizeof(T);")]
needs = 'A pointer to a type of 64 kB or more.'
breaks = 'ref_size() of a pointer to a large type is the size modulo 65536.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
struct Small { char a[100]; };
struct Large { char a[0x10001]; };
int main()
{
  return libcwd::type_info_of<Small*>().ref_size() != sizeof(Small) || libcwd::type_info_of<Large*>().ref_size() != sizeof(Large) ||
         libcwd::type_info_of<Large>().size() != sizeof(Large);
}
'''
