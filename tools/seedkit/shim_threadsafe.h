// Stand-in for the (absent) git submodule include/threadsafe of libcwd: part of the
// trusted base of /verif.  See DESIGN.md.
#pragma once
#include <mutex>
#include <utility>
#include "utils/macros.h"   // As the real one does; dwarf.cxx relies on it.
#include "debug.h"

namespace threadsafe {
namespace policy {

template <class RWMUTEX>
struct ReadWrite
{
  using mutex_type = RWMUTEX;
  static constexpr bool rw = true;
  static void rdlock(RWMUTEX& m) { m.rdlock(); }
  static void rdunlock(RWMUTEX& m) { m.rdunlock(); }
  static void wrlock(RWMUTEX& m) { m.wrlock(); }
  static void wrunlock(RWMUTEX& m) { m.wrunlock(); }
  static void rd2wrlock(RWMUTEX& m) { m.rd2wrlock(); }
  static void wr2rdlock(RWMUTEX& m) { m.wr2rdlock(); }
  static void rd2wryield(RWMUTEX& m) { m.rd2wryield(); }
};

template <class MUTEX>
struct Primitive
{
  using mutex_type = MUTEX;
  static constexpr bool rw = false;
  static void rdlock(MUTEX& m) { m.lock(); }
  static void rdunlock(MUTEX& m) { m.unlock(); }
  static void wrlock(MUTEX& m) { m.lock(); }
  static void wrunlock(MUTEX& m) { m.unlock(); }
  static void rd2wrlock(MUTEX&) { }
  static void wr2rdlock(MUTEX&) { }
  static void rd2wryield(MUTEX&) { }
};

} // namespace policy

template <class T, class POLICY>
class Unlocked
{
 public:
  using data_type = T;
  using policy_type = POLICY;
  class wat;

  // Read access.
  class rat
  {
    friend class wat;

   protected:
    Unlocked* u_;
    bool owns_;
    bool upgraded_ = false;

   public:
    explicit rat(Unlocked const& u) : u_(const_cast<Unlocked*>(&u)), owns_(true) { POLICY::rdlock(u_->mutex_); }
    rat(wat const& w);
    rat(rat const&) = delete;
    ~rat()
    {
      if (owns_)
        POLICY::rdunlock(u_->mutex_);
    }
    T const* operator->() const { return &u_->data_; }
    T const& operator*() const { return u_->data_; }
  };
  using crat = rat;

  // Write access.
  class wat
  {
    friend class rat;
    Unlocked* u_;
    rat* from_ = nullptr;

   public:
    explicit wat(Unlocked const& u) : u_(const_cast<Unlocked*>(&u)) { POLICY::wrlock(u_->mutex_); }
    // Upgrade; throws when another thread is upgrading too.
    explicit wat(rat& r) : u_(r.u_), from_(&r) { POLICY::rd2wrlock(u_->mutex_); }
    wat(wat&& o) : u_(std::exchange(o.u_, nullptr)), from_(o.from_) { }
    wat(wat const&) = delete;
    ~wat()
    {
      if (!u_)
        return;
      if (from_)
        POLICY::wr2rdlock(u_->mutex_);
      else
        POLICY::wrunlock(u_->mutex_);
    }
    T* operator->() const { return &u_->data_; }
    T& operator*() const { return u_->data_; }
  };

 private:
  T data_;
  typename POLICY::mutex_type mutex_;

 public:
  template <class... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...)
  {
  }
  Unlocked(Unlocked const&) = delete;
  void rd2wryield() const { POLICY::rd2wryield(const_cast<Unlocked*>(this)->mutex_); }
  void rdlock() { POLICY::rdlock(mutex_); }
  void rdunlock() { POLICY::rdunlock(mutex_); }
};

template <class T, class POLICY>
inline Unlocked<T, POLICY>::rat::rat(wat const& w) : u_(w.u_), owns_(false)
{
}

} // namespace threadsafe
