// Stand-in for the (absent) threadsafe submodule: a std::mutex that knows its owner.
#pragma once
#include "debug.h"        // As the real one does.
#include <atomic>
#include <mutex>
#include <thread>

class AIMutex
{
  std::mutex m_;
  std::atomic<std::thread::id> owner_{};

 public:
  void lock() { m_.lock(); owner_.store(std::this_thread::get_id(), std::memory_order_relaxed); }
  bool try_lock()
  {
    if (!m_.try_lock())
      return false;
    owner_.store(std::this_thread::get_id(), std::memory_order_relaxed);
    return true;
  }
  void unlock() { owner_.store(std::thread::id{}, std::memory_order_relaxed); m_.unlock(); }
  bool is_self_locked() const { return owner_.load(std::memory_order_relaxed) == std::this_thread::get_id(); }
};
