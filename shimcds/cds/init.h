// Stand-in for the part of libcds that dreal uses, for the harnesses that run
// under the controlled scheduler (see ../../src/xsched.h).  The operations have
// the memory orders of the originals; a thread that uses a container without
// being attached, or after Terminate, is reported.
#pragma once
#include <atomic>
#include <sched.h>
#include <utility>
#include <vector>
extern "C" void vf_cds_misuse(const char*);
extern "C" void vf_cds_untracked(int);
namespace cds {
namespace vf {
struct Global {
  bool initialized{false};
  bool gc{false};
};
inline Global& global() {
  static Global g;
  return g;
}
inline bool& attached() {
  thread_local bool a{false};
  return a;
}
struct Quiet {
  Quiet() { vf_cds_untracked(1); }
  ~Quiet() { vf_cds_untracked(0); }
};
inline void Use(const char* what) {
  Quiet q;
  if (!global().initialized || !global().gc || !attached()) vf_cds_misuse(what);
}
}  // namespace vf
inline void Initialize() {
  vf::Quiet q;
  vf::global().initialized = true;
}
inline void Terminate() {
  vf::Quiet q;
  vf::global().initialized = false;
}
namespace gc {
struct HP {
  HP() {
    vf::Quiet q;
    vf::global().gc = true;
  }
  ~HP() {
    vf::Quiet q;
    vf::global().gc = false;
  }
};
}  // namespace gc
namespace threading {
struct Manager {
  static void attachThread() {
    vf::Quiet q;
    if (!vf::global().gc) vf_cds_misuse("a thread was attached before the hazard pointers were set up");
    vf::attached() = true;
  }
  static void detachThread() {
    vf::Quiet q;
    vf::attached() = false;
  }
};
}  // namespace threading
}  // namespace cds
