// Stand-in for the (absent) threadsafe submodule: Unlocked<T, policy> with scoped access types.
#pragma once
#include "debug.h"        // As the real one does.
#include "utils/macros.h"
#include <mutex>
#include <utility>

namespace threadsafe {
namespace policy {
template <class MUTEX> struct ReadWrite { using mutex_type = MUTEX; };
template <class MUTEX> struct Primitive { using mutex_type = MUTEX; };
} // namespace policy

template <class T, class POLICY>
class Unlocked;

template <class T, class MUTEX>
class Unlocked<T, policy::ReadWrite<MUTEX>>
{
  mutable T data_;
  mutable MUTEX mutex_;

 public:
  using data_type = T;
  template <class... Args>
  Unlocked(Args&&... args) : data_(std::forward<Args>(args)...) { }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;
  void rd2wryield() const { mutex_.rd2wryield(); }

  class wat;
  class rat
  {
    friend class wat;
    Unlocked const* owner_;

   public:
    explicit rat(Unlocked const& u) : owner_(&u) { u.mutex_.rdlock(); }
    rat(rat const&) = delete;
    rat& operator=(rat const&) = delete;
    ~rat() { owner_->mutex_.rdunlock(); }
    T const* operator->() const { return &owner_->data_; }
    T const& operator*() const { return owner_->data_; }
  };
  class wat
  {
    Unlocked const* owner_;
    bool from_read_;

   public:
    explicit wat(Unlocked const& u) : owner_(&u), from_read_(false) { u.mutex_.wrlock(); }
    explicit wat(rat& r) : owner_(r.owner_), from_read_(true) { owner_->mutex_.rd2wrlock(); }
    wat(wat const&) = delete;
    wat& operator=(wat const&) = delete;
    ~wat() { if (from_read_) owner_->mutex_.wr2rdlock(); else owner_->mutex_.wrunlock(); }
    T* operator->() const { return &owner_->data_; }
    T& operator*() const { return owner_->data_; }
  };
};

template <class T, class MUTEX>
class Unlocked<T, policy::Primitive<MUTEX>>
{
  mutable T data_;
  mutable MUTEX mutex_;

 public:
  using data_type = T;
  template <class... Args>
  Unlocked(Args&&... args) : data_(std::forward<Args>(args)...) { }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;

  class wat
  {
    Unlocked const* owner_;

   public:
    explicit wat(Unlocked const& u) : owner_(&u) { u.mutex_.lock(); }
    wat(wat const&) = delete;
    wat& operator=(wat const&) = delete;
    ~wat() { owner_->mutex_.unlock(); }
    T* operator->() const { return &owner_->data_; }
    T& operator*() const { return owner_->data_; }
  };
  using rat = wat;
};

} // namespace threadsafe
