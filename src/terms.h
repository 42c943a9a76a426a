// The term set shared by the interval harnesses: every expression of bounded
// depth over x, y and a few constants, with boxes and grids of points.
#pragma once
#include "uni.h"
namespace terms {
using dreal::Expression;
using dreal::Variable;
using uni::ESet;
using uni::Op;
struct T {
  Expression e;
  ref::NP n;  // read back from e
  bool var_exp{false};
};
// IBEX defines x^y with a varying exponent as exp(y log x); points where the
// two readings differ are left out by the callers.
inline bool VaryingExponent(const ref::NP& n) {
  if (n->op == Op::kPow && !uni::FreeOf(n->k[1]).empty()) return true;
  for (auto& k : n->k) if (VaryingExponent(k)) return true;
  return false;
}
inline std::vector<T> Build(const Variable& x, const Variable& y, int depth2) {
  ESet s;
  auto add = [&](const Expression& e) {
    if (dreal::is_nan(e)) return;
    s.Insert(e, nullptr);
  };
  for (const Expression& e : {Expression(x), Expression(y), Expression(2.0), Expression(-1.0), Expression(0.5), Expression(3.0)}) add(e);
  add(dreal::drake::symbolic::real_constant(0.1, std::nextafter(0.1, 1), true));
  const size_t l0 = s.v.size();
  auto un = [&](size_t lo, size_t hi) {
    for (size_t i = lo; i < hi; ++i)
      for (Op o : uni::UnaryOps()) try { add(uni::Apply(o, {s.v[i].e})); } catch (const std::exception&) {}
  };
  auto bin = [&](size_t a0, size_t a1, size_t b0, size_t b1) {
    for (size_t i = a0; i < a1; ++i)
      for (size_t j = b0; j < b1; ++j)
        for (Op o : uni::BinaryOps()) try { add(uni::Apply(o, {s.v[i].e, s.v[j].e})); } catch (const std::exception&) {}
  };
  un(0, l0);
  bin(0, l0, 0, l0);
  const size_t l1 = s.v.size();
  if (depth2 >= 1) {
    un(l0, l1);
    bin(l0, l1, 0, depth2 >= 2 ? l0 : 3);
    bin(0, depth2 >= 2 ? l0 : 2, l0, l1);
  }
  std::vector<T> r;
  for (auto& e : s.v) {
    T t{e.e, uni::LiftE(e.e), false};
    t.var_exp = VaryingExponent(t.n);
    r.push_back(t);
  }
  return r;
}
}  // namespace terms
