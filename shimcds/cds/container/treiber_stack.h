#pragma once
#include <cds/init.h>
namespace cds {
namespace container {
// One scheduling point per operation: push is a release, a successful pop an
// acquire (and a read-modify-write, so that it continues the release sequence).
template <class GC, class T>
class TreiberStack {
 public:
  TreiberStack() = default;
  TreiberStack(const TreiberStack&) = delete;
  ~TreiberStack() {
    top_.load(std::memory_order_acquire);
    for (T* p : items_) delete p;
  }
  bool push(const T& v) {
    vf::Use("push by a thread that is not attached");
    T* p = new T(v);
    top_.fetch_add(1, std::memory_order_release);
    vf::Quiet q;
    items_.push_back(p);
    return true;
  }
  bool pop(T& v) {
    vf::Use("pop by a thread that is not attached");
    T* p = nullptr;
    bool none;
    top_.load(std::memory_order_acquire);
    {
      vf::Quiet q;
      none = items_.empty();
      if (!none) {
        p = items_.back();
        items_.pop_back();
      }
    }
    if (none) {
      sched_yield();
      return false;
    }
    taken_.fetch_add(1, std::memory_order_relaxed);
    v = *p;
    delete p;
    return true;
  }
  bool empty() const {
    top_.load(std::memory_order_relaxed);
    vf::Quiet q;
    return items_.empty();
  }
  void clear() {
    top_.fetch_add(1, std::memory_order_acquire);
    std::vector<T*> all;
    {
      vf::Quiet q;
      all.swap(items_);
    }
    for (T* p : all) delete p;
  }

 private:
  std::atomic<int> top_{0};
  std::atomic<int> taken_{0};
  std::vector<T*> items_;
};
}  // namespace container
}  // namespace cds
