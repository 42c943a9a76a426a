#pragma once
#include <cds/init.h>
namespace cds {
namespace opt {
namespace v {
template <class T> struct initialized_dynamic_buffer {};
}
template <class T> struct buffer {};
template <class T> struct compare {};
}  // namespace opt
namespace container {
namespace mspriority_queue {
template <class... O> struct make_traits { struct type {}; };
}
template <class T, class Tr> class MSPriorityQueue;  // not used by the solver
}  // namespace container
}  // namespace cds
