// Shared by the harnesses of formula transformations (C12-C16): a pool of
// formula-building programs and truth of real formulas on a grid.
#pragma once
#include <functional>
#include "uni.h"

namespace lg {
using namespace uni;  // NOLINT

inline NP B(Op o, NP a, NP b) { return ref::Mk(o, {std::move(a), std::move(b)}); }
inline NP N(NP a) { return ref::Mk(Op::kNot, {std::move(a)}); }

struct World {
  int n{0};  // declared variables 0..n-1
  std::vector<ref::Env> grid;
  std::vector<Environment> env;
  void Set(const std::vector<std::pair<int, std::vector<double>>>& dims, int extra = 128) {
    n = static_cast<int>(VV().v.size());
    grid = Grid(dims);
    for (auto& e : grid) {
      e.v.resize(n + extra);
      env.push_back(ToEnv(e, n));
    }
  }
};
inline bool Quantified(const NP& n) {
  if (n->op == Op::kForall) return true;
  for (auto& k : n->k)
    if (Quantified(k)) return true;
  return false;
}
// 1 / 0 / -1 undecided or undefined / -2 throws
inline int TruthRef(const NP& n, const ref::Env& e) {
  ref::Env t = e;
  const ref::Tri r = ref::EvalF(n, t);
  return r == ref::Tri::T ? 1 : r == ref::Tri::F ? 0 : -1;
}
inline int Truth(const Formula& f, const NP& lifted, bool quant, const World& w, size_t i, std::string* what) {
  if (quant) return TruthRef(lifted, w.grid[i]);
  try {
    return f.Evaluate(w.env[i]) ? 1 : 0;
  } catch (const std::exception& e) {
    *what = e.what();
    return -2;
  }
}
// f (built from n) and the transformed g agree wherever n is determined.
inline bool Same(const std::string& id, const NP& n, const Formula& g, const World& w, vf::Ctx& c) {
  const NP l = LiftF(g);
  const bool q = Quantified(l);
  std::string tab;
  bool ok = true;
  for (size_t i = 0; i < w.grid.size(); ++i) {
    const int want = TruthRef(n, w.grid[i]);
    if (want < 0) continue;
    std::string what;
    const int got = Truth(g, l, q, w, i, &what);
    if (q && got < 0) continue;
    ++c.evals;
    tab += static_cast<char>('0' + want);
    if (got != want) {
      c.Fail("truth " + id, vf::Cat(id, " gives ", g, " which is ", got == -2 ? what : vf::Cat(got), " (expected ", want, ") at ", EnvStr(w.grid[i], w.n)));
      ok = false;
      break;
    }
  }
  c.Outcome(tab);
  return ok;
}
inline bool IsRel(Op o) { return o >= Op::kEq && o <= Op::kGe; }
inline bool IsAtom(const NP& n) {
  return IsRel(n->op) || n->op == Op::kTrue || n->op == Op::kFalse || n->op == Op::kBool || n->op == Op::kForall;
}
inline bool IsLiteral(const NP& n) { return IsAtom(n) || (n->op == Op::kNot && IsAtom(n->k[0])); }
inline bool IsClause(const NP& n) {
  if (IsLiteral(n)) return true;
  if (n->op != Op::kOr) return false;
  for (auto& k : n->k)
    if (!IsLiteral(k)) return false;
  return true;
}
inline bool IsCnf(const NP& n) {
  if (IsClause(n)) return true;
  if (n->op != Op::kAnd) return false;
  for (auto& k : n->k)
    if (!IsClause(k)) return false;
  return true;
}

// Distinct formulas reachable by one more connective.
inline FSet Grow(const std::vector<FS>& a, const std::vector<FS>& b, const std::vector<Op>& ops) {
  FSet s;
  for (auto& x : a) s.Insert(x.f, x.n);
  for (auto& x : a) s.Insert(!x.f, N(x.n));
  for (auto& x : a)
    for (auto& y : b)
      for (Op o : ops) {
        const NP n = B(o, x.n, y.n);
        Formula f;
        switch (o) {
          case Op::kAnd: f = x.f && y.f; break;
          case Op::kOr: f = x.f || y.f; break;
          case Op::kImp: f = dreal::imply(x.f, y.f); break;
          default: f = dreal::iff(x.f, y.f); break;
        }
        s.Insert(f, n);
      }
  return s;
}
inline FSet GrowQ(const FSet& a, const std::vector<std::vector<int>>& binders) {
  FSet s;
  for (auto& x : a.v) s.Insert(x.f, x.n);
  for (auto& x : a.v)
    for (auto& b : binders) {
      Variables vs;
      for (int i : b) vs.insert(VV().v[i]);
      s.Insert(dreal::forall(vs, x.f), ref::All(b, x.n));
    }
  return s;
}
inline FS Fs(const NP& n) { return FS{BuildF(n), n}; }
// All pairs (a, b) of a pool x connectives, run as units: unit = index of a.
inline void Pairs(vf::Driver& d, const std::string& name, const std::vector<FS>& a, const std::vector<FS>& b, const std::vector<Op>& ops,
                  const std::function<void(const FS&, vf::Ctx&)>& check) {
  d.Add(name, a.size(), [&a, &b, ops, check](int64_t u, vf::Ctx& c) {
    const size_t keep = VV().v.size();
    check(a[u], c);
    check(FS{!a[u].f, N(a[u].n)}, c);
    for (auto& y : b)
      for (Op o : ops) {
        const NP n = B(o, a[u].n, y.n);
        const Formula f = o == Op::kAnd ? a[u].f && y.f : o == Op::kOr ? a[u].f || y.f : o == Op::kImp ? dreal::imply(a[u].f, y.f) : dreal::iff(a[u].f, y.f);
        check(FS{f, n}, c);
        VV().Shrink(keep);
      }
  });
}
// Chains f1 = literal, f(k+1) = [not] (fk and/or literal), with every choice of literal, connective
// and negation: the deep alternations which a complete enumeration by depth does not reach.
inline void Chains(vf::Driver& d, const std::string& name, const std::vector<FS>& lits, int steps,
                   const std::function<void(const FS&, vf::Ctx&)>& check) {
  const int64_t per = static_cast<int64_t>(lits.size()) * 4;
  d.Add(name, lits.size() * per, [&lits, steps, check, per](int64_t u, vf::Ctx& c) {
    const size_t keep = VV().v.size();
    int64_t total = 1;
    for (int i = 1; i < steps; ++i) total *= per;
    auto step = [&](const FS& f, int64_t k) {
      const FS& l = lits[k / 4];
      FS r = k & 1 ? FS{f.f && l.f, B(Op::kAnd, f.n, l.n)} : FS{f.f || l.f, B(Op::kOr, f.n, l.n)};
      if (k & 2) r = FS{!r.f, N(r.n)};
      return r;
    };
    for (int64_t m = 0; m < total; ++m) {
      FS f = step(lits[u / per], u % per);
      int64_t t = m;
      for (int i = 1; i < steps; ++i, t /= per) f = step(f, t % per);
      check(f, c);
      VV().Shrink(keep);
    }
  });
}
}  // namespace lg
