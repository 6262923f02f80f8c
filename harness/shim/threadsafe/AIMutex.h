#pragma once
#include <atomic>
#include <mutex>
#include <thread>
#include "debug.h"
class AIMutex
{
  std::mutex m_;
  std::atomic<std::thread::id> id_{};

 public:
  void lock() { m_.lock(); id_.store(std::this_thread::get_id()); }
  bool try_lock() { if (!m_.try_lock()) return false; id_.store(std::this_thread::get_id()); return true; }
  void unlock() { id_.store(std::thread::id()); m_.unlock(); }
  bool is_self_locked() const { return id_.load() == std::this_thread::get_id(); }
};
