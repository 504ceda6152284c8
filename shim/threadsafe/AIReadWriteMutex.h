// Stand-in for the (absent) threadsafe submodule: a read/write mutex that allows a reader to
// convert to a writer, with the interface that libcwd's debug.cxx and dwarf.cxx use.
#pragma once
#include <condition_variable>
#include <exception>
#include <mutex>

class AIReadWriteMutex
{
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0;             // Active readers.
  bool writer_ = false;         // A writer is active.
  bool converting_ = false;     // One reader is waiting to become (or is) the writer.

 public:
  void rdlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_; });
    ++readers_;
  }
  void rdunlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    --readers_;
    cv_.notify_all();
  }
  void wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_ && readers_ == 0; });
    writer_ = true;
  }
  void wrunlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    writer_ = false;
    cv_.notify_all();
  }
  // Throws when another reader is already converting: the caller must release its read lock and
  // retry, after calling rd2wryield().
  void rd2wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    if (converting_)
      throw std::exception();
    converting_ = true;
    cv_.wait(lk, [this] { return !writer_ && readers_ == 1; });
    readers_ = 0;
    writer_ = true;
  }
  void wr2rdlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    writer_ = false;
    readers_ = 1;
    converting_ = false;
    cv_.notify_all();
  }
  void rd2wryield()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !converting_; });
  }
};
