// Replays scripts of operations on lockable_auto_ptr; see spec/AutoPtr.tla.
#include <libcwd/debug.h>
#include <libcwd/lockable_auto_ptr.h>
#include "drv.h"
#include <new>

namespace {
using drv::J;

int wrong;
std::vector<int> deleted;      // per object

struct Base
{
  int id;
  char tag = 'B';
  Base(int id = 0) : id(id) { }
  virtual ~Base() { if (tag != 'B') ++wrong; tag = 0; deleted.at(id - 1)++; }
};
struct Derived : Base
{
  char pad[40];
  char tag2 = 'D';
  Derived(int id) : Base(id) { }
  ~Derived() { if (tag2 != 'D') ++wrong; tag2 = 0; }
};
// Two elements per array: both must be destroyed, and the storage must be freed by delete[].
int constructing;
struct Elem
{
  int id;
  int tag = 1;
  Elem() : id(constructing) { }
  ~Elem() { if (!tag) ++wrong; tag = 0; static int half; if (++half == 2) { half = 0; deleted.at(id - 1)++; } }
  static void operator delete(void* p) { ++wrong; ::operator delete(p); }
  static void operator delete[](void* p) { ::operator delete[](p); }
  static void* operator new[](size_t n) { return ::operator new[](n); }
};

using PB = libcwd::lockable_auto_ptr<Base>;
using PD = libcwd::lockable_auto_ptr<Derived>;
using PA = libcwd::lockable_auto_ptr<Elem, true>;

struct Slot
{
  char type;
  bool up = false;
  alignas(16) char mem[64];
  PB& b() { return *(PB*)mem; }
  PD& d() { return *(PD*)mem; }
  PA& a() { return *(PA*)mem; }
};
std::vector<Slot> slots;
std::vector<void*> addr;       // per object: Base* or Elem*
std::vector<char> types;

void* get(Slot& s) { return s.type == 'b' ? (void*)s.b().get() : s.type == 'd' ? (void*)static_cast<Base*>(s.d().get()) : (void*)s.a().get(); }
bool own(Slot& s) { return s.type == 'b' ? s.b().is_owner() : s.type == 'd' ? s.d().is_owner() : s.a().is_owner(); }
bool strict(Slot& s) { return s.type == 'b' ? s.b().strict_owner() : s.type == 'd' ? s.d().strict_owner() : s.a().strict_owner(); }

std::string obs()
{
  std::string r = "{\"p\":[";
  for (size_t i = 0; i < slots.size(); ++i)
  {
    Slot& s = slots[i];
    int ptr = 0;
    bool o = false, st = false;
    if (s.up)
    {
      void* p = get(s);
      // Object addresses can be reused; objects are never freed here (see keep()).
      for (size_t k = 0; k < addr.size(); ++k) if (addr[k] == p) ptr = k + 1;
      if (p && !ptr) ptr = -1;
      o = own(s);
      if (o) st = strict(s);
    }
    r += std::string(i ? "," : "") + "{\"up\":" + (s.up ? "true" : "false") + ",\"ptr\":" + std::to_string(ptr) + ",\"own\":" + (o ? "true" : "false") +
         ",\"strict\":" + (st ? "true" : "false") + "}";
  }
  r += "],\"del\":[";
  for (size_t i = 0; i < deleted.size(); ++i) r += (i ? "," : "") + std::to_string(deleted[i]);
  return r + "]}";
}

void run(J const& script)
{
  J const& ty = script["cfg"]["types"];
  slots = std::vector<Slot>(ty.size());
  for (size_t i = 0; i < ty.size(); ++i) slots[i].type = ty[(int)i].s[0];
  for (J const& op : script["ops"].a)
  {
    std::string const& w = op["op"].s;
    int i = op["i"].i() - 1, j = op["j"].i(1) - 1;
    Slot& s = slots[i];
    if (w == "new")
    {
      deleted.push_back(0);
      int id = deleted.size();
      types.push_back(s.type);
      if (s.type == 'b') { Base* p = new Base(id); addr.push_back(p); new (s.mem) PB(p); }
      else if (s.type == 'd') { Derived* p = new Derived(id); addr.push_back(static_cast<Base*>(p)); new (s.mem) PD(p); }
      else { constructing = id; Elem* p = new Elem[2]; addr.push_back(p); new (s.mem) PA(p); }
      s.up = true;
    }
    else if (w == "null")
    {
      if (s.type == 'b') new (s.mem) PB; else if (s.type == 'd') new (s.mem) PD; else new (s.mem) PA;
      s.up = true;
    }
    else if (w == "adopt")
    {
      void* p = addr[op["o"].i() - 1];
      if (s.type == 'b') new (s.mem) PB((Base*)p); else if (s.type == 'd') new (s.mem) PD(static_cast<Derived*>((Base*)p)); else new (s.mem) PA((Elem*)p);
      s.up = true;
    }
    else if (w == "delete")
    {
      void* p = addr[op["o"].i() - 1];
      if (types[op["o"].i() - 1] == 'a') delete[] (Elem*)p; else delete (Base*)p;
    }
    else if (w == "copy")
    {
      Slot& q = slots[j];
      if (s.type == 'b') { if (q.type == 'b') new (s.mem) PB(q.b()); else new (s.mem) PB(q.d()); }
      else if (s.type == 'd') new (s.mem) PD(q.d());
      else new (s.mem) PA(q.a());
      s.up = true;
    }
    else if (w == "assign")
    {
      Slot& q = slots[j];
      if (s.type == 'b') { if (q.type == 'b') s.b() = q.b(); else s.b() = q.d(); }
      else if (s.type == 'd') s.d() = q.d();
      else s.a() = q.a();
    }
    else if (w == "reset") { if (s.type == 'b') s.b().reset(); else if (s.type == 'd') s.d().reset(); else s.a().reset(); }
    else if (w == "release")
    {
      void* before = get(s);
      void* p = s.type == 'b' ? (void*)s.b().release() : s.type == 'd' ? (void*)static_cast<Base*>(s.d().release()) : (void*)s.a().release();
      if (p != before) ++wrong;
    }
    else if (w == "lock") { if (s.type == 'b') s.b().lock(); else if (s.type == 'd') s.d().lock(); else s.a().lock(); }
    else if (w == "unlock") { if (s.type == 'b') s.b().unlock(); else if (s.type == 'd') s.d().unlock(); else s.a().unlock(); }
    else if (w == "destroy") { if (s.type == 'b') s.b().~PB(); else if (s.type == 'd') s.d().~PD(); else s.a().~PA(); s.up = false; }
    // Dereferencing gives the same object.
    if (s.up && get(s))
    {
      if (s.type == 'b' && (&*s.b() != s.b().get() || s.b().operator->() != s.b().get())) ++wrong;
      if (s.type == 'd' && (&*s.d() != s.d().get() || s.d().operator->() != s.d().get())) ++wrong;
      if (s.type == 'a' && (&*s.a() != s.a().get() || s.a().operator->() != s.a().get())) ++wrong;
    }
    std::string f;
    for (auto& p : op.o) f += "," + drv::q(p.first) + ":" + drv::raw_str(p.second);
    drv::emit("{\"e\":\"Op\"" + f + ",\"obs\":" + obs() + ",\"wrong\":" + std::to_string(wrong) + "}");
  }
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
