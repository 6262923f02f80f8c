prop = 'C12'
edits = [('include/libcwd/lockable_auto_ptr.h', "    if (r.locked_)\n      owner_ = 0;\n    else\n    {\n      owner_ = r.owner_;\n      r.owner_ = 0;\n    }", "    owner_ = r.owner_ && !r.locked_;\n    if (owner_ || !ptr_)\n      r.owner_ = 0;\n    else if (locked_)\n      owner_ = r.owner_;")]
needs = 'Assignment from a locked owner to a pointer that is (still) locked itself.'
breaks = 'Two pointers own the same object: it is destroyed twice.'
demo = r'''
#include <libcwd/debug.h>
#include <libcwd/lockable_auto_ptr.h>
int count[3];
struct A { int n; A(int n) : n(n) { } ~A() { ++count[n]; } };
int main()
{
  {
    libcwd::lockable_auto_ptr<A> p(new A(1));
    libcwd::lockable_auto_ptr<A> q(new A(2));
    p.lock();
    q.lock();
    q = p;
    if (count[2] != 1) return 1;
    if (q.is_owner()) return 1;
  }
  return count[1] != 1;
}
'''
