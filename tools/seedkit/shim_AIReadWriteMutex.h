// Stand-in for the (absent) git submodule include/threadsafe of libcwd: part of the
// trusted base of /verif.  Single-writer / multiple-reader lock with upgrade.
#pragma once
#include <condition_variable>
#include <exception>
#include <mutex>

class AIReadWriteMutex
{
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0;
  bool writer_ = false;
  bool upgrading_ = false;
  int waiting_writers_ = 0;

 public:
  void rdlock(bool = false)
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_ && !upgrading_; });
    ++readers_;
  }
  void rdunlock()
  {
    std::lock_guard<std::mutex> lk(m_);
    --readers_;
    cv_.notify_all();
  }
  void wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_ && readers_ == 0; });
    writer_ = true;
  }
  void wrunlock()
  {
    std::lock_guard<std::mutex> lk(m_);
    writer_ = false;
    cv_.notify_all();
  }
  // Turn the read lock held by the caller into a write lock.
  // Throws if another thread is already trying to do the same.
  void rd2wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    if (upgrading_)
      throw std::exception();
    upgrading_ = true;
    cv_.wait(lk, [this] { return !writer_ && readers_ == 1; });
    upgrading_ = false;
    readers_ = 0;
    writer_ = true;
  }
  // Called without holding any lock, after rd2wrlock threw.
  void rd2wryield()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !upgrading_; });
  }
  void wr2rdlock()
  {
    std::lock_guard<std::mutex> lk(m_);
    writer_ = false;
    readers_ = 1;
    cv_.notify_all();
  }
};
