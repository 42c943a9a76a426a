// BUILD: full
// C28: boxes as values, the variable/index correspondence, bisection, union and
// the choice of a dimension, against a plain list of (variable, low, high).
#include "dreal/solver/brancher.h"
#include "dreal/util/box.h"
#include "dreal/util/dynamic_bitset.h"
#include "dreal/symbolic/symbolic.h"
#include "vf.h"
using namespace dreal;
using Iv = Box::Interval;
namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kMax = std::numeric_limits<double>::max();
const double kDen = std::numeric_limits<double>::denorm_min();
const double kIntMax = std::numeric_limits<int>::max();
using T = Variable::Type;

struct M {  // model of a box
  std::vector<Variable> v;
  std::vector<double> lo, hi;
  bool empty{false};
};
std::string Check(const Box& b, const M& m, const std::vector<Variable>& all) {
  if (b.size() != static_cast<int>(m.v.size())) return vf::Cat("size ", b.size(), " instead of ", m.v.size());
  if (b.empty() != m.empty) return m.empty ? "not empty any more" : "became empty";
  if (b.variables().size() != m.v.size()) return "length of variables()";
  for (size_t i = 0; i < m.v.size(); ++i) {
    if (!b.variables()[i].equal_to(m.v[i])) return vf::Cat("variables()[", i, "] is not ", m.v[i]);
    if (!b.variable(i).equal_to(m.v[i])) return vf::Cat("variable(", i, ") is not ", m.v[i]);
    if (b.index(m.v[i]) != static_cast<int>(i)) return vf::Cat("index(", m.v[i], ") = ", b.index(m.v[i]), " instead of ", i);
    if (m.empty) continue;
    const Iv& x = b[static_cast<int>(i)];
    const Iv& y = b[m.v[i]];
    const Iv& z = b.interval_vector()[i];
    for (const Iv* p : {&x, &y, &z})
      if (p->lb() != m.lo[i] || p->ub() != m.hi[i])
        return vf::Cat(m.v[i], " = [", p->lb(), ", ", p->ub(), "] instead of [", m.lo[i], ", ", m.hi[i], "]");
  }
  for (const Variable& v : all) {
    bool in = false;
    for (const Variable& w : m.v) in = in || w.equal_to(v);
    if (b.has_variable(v) != in) return vf::Cat("has_variable(", v, ") = ", !in);
  }
  return "";
}
bool Same(const Box& a, const Box& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!a.variable(i).equal_to(b.variable(i)) || a[i].lb() != b[i].lb() || a[i].ub() != b[i].ub()) return false;
  return true;
}
// decides the bisection part of the property for dimension i of b
std::string CheckBisect(const Box& b, int i, const std::pair<Box, Box>& r) {
  const Box &l = r.first, &u = r.second;
  for (const Box* p : {&l, &u}) {
    if (p->size() != b.size()) return "a half has another dimension";
    if (p->empty()) return "a half is empty";
    for (int j = 0; j < b.size(); ++j) {
      if (!p->variable(j).equal_to(b.variable(j)) || p->index(b.variable(j)) != j) return "a half lost the variable order";
      if (j != i && ((*p)[j].lb() != b[j].lb() || (*p)[j].ub() != b[j].ub())) return vf::Cat("dimension ", j, " changed");
    }
    const Iv& q = (*p)[i];
    if (q.is_empty()) return "the bisected dimension is empty";
    if (!(q.lb() >= b[i].lb() && q.ub() <= b[i].ub())) return vf::Cat("a half [", q.lb(), ", ", q.ub(), "] leaves the original");
    if (q.lb() == b[i].lb() && q.ub() == b[i].ub()) return "a half is not smaller";
  }
  Iv a = l[i], c = u[i];
  if (c.lb() < a.lb()) std::swap(a, c);
  const bool integral = b.variable(i).get_type() != T::CONTINUOUS;
  if (integral) {
    if (a.lb() > std::ceil(b[i].lb()) || c.ub() < std::floor(b[i].ub())) return "an end was lost";
    if (std::floor(a.ub()) + 1 < std::ceil(c.lb())) return vf::Cat("integers between ", a.ub(), " and ", c.lb(), " lost");
    if (a.ub() >= c.lb()) return vf::Cat("the halves share ", c.lb());
  } else {
    if (a.lb() != b[i].lb() || c.ub() != b[i].ub()) return "an end was lost";
    if (a.ub() < c.lb()) return vf::Cat("points between ", a.ub(), " and ", c.lb(), " lost");
  }
  return "";
}
struct Spec {
  T t;
  double lo, hi;
};
std::vector<Spec> Specs(bool thorough) {
  std::vector<Spec> s;
  std::vector<double> r{-kInf, -kMax, -2.5, -1, -kDen, 0, kDen, 2 * kDen, 1, std::nextafter(1, 2), std::nextafter(std::nextafter(1, 2), 2), 3, 1e300, kMax, kInf};
  for (double a : r)
    for (double b : r)
      if (a <= b && a < kInf && b > -kInf) s.push_back({T::CONTINUOUS, a, b});
  std::vector<double> n{-kIntMax, -1000000, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 1000001, kIntMax};
  for (double a : n)
    for (double b : n)
      if (a <= b) s.push_back({T::INTEGER, a, b});
  // Pruning may leave bounds which are not integral.
  for (double a : {-4.0, -3.75, -1.5, -0.25, 0.0, 0.1, 0.9, 1.0, 1.5})
    for (double b : {-1.5, -0.5, 0.0, 1.0, 1.25, 2.0, 2.5, 3.999, 7.5, 1000000.5})
      if ((a != std::floor(a) || b != std::floor(b)) && std::ceil(a) < std::floor(b)) s.push_back({T::INTEGER, a, b});
  s.push_back({T::BINARY, 0, 0});
  s.push_back({T::BINARY, 0, 1});
  s.push_back({T::BINARY, 1, 1});
  if (!thorough) return s;
  return s;
}
Variable Mk(const char* n, T t) { return Variable{n, t}; }
bool Bisectable(double lo, double hi) {  // is there a representable number strictly between?
  return lo < hi && std::nextafter(lo, kInf) < hi;
}
std::string Show(const Box& b) {
  std::ostringstream o;
  o.precision(17);
  for (int i = 0; i < b.size(); ++i)
    o << (i ? ", " : "") << b.variable(i) << (b.variable(i).get_type() == T::CONTINUOUS ? "" : ":int") << " in [" << b[i].lb() << ", " << b[i].ub() << "]";
  return o.str();
}
}  // namespace

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  // --- bisection of every interval in the list, at every position
  const std::vector<Spec> specs = Specs(th);
  d.Add("bisect", specs.size(), [=](int64_t u, vf::Ctx& c) {
    const Spec s = specs[u];
    for (int dim = 1; dim <= 3; ++dim)
      for (int pos = 0; pos < dim; ++pos) {
        Box b;
        std::vector<Variable> vs;
        for (int j = 0; j < dim; ++j) {
          vs.push_back(j == pos ? Mk("v", s.t) : Mk("w", j % 2 ? T::INTEGER : T::CONTINUOUS));
          if (j == pos) { b.Add(vs.back(), std::ceil(s.lo) <= s.hi && s.t != T::CONTINUOUS ? std::ceil(s.lo) : s.lo, s.t != T::CONTINUOUS ? std::floor(s.hi) : s.hi); b[vs.back()] = Iv(s.lo, s.hi); }
          else b.Add(vs.back(), -8 - j, 9 + j);
        }
        const std::string id = vf::Cat("bisecting dimension ", pos, " of ", Show(b));
        c.Note(id);
        const Box before(b);
        for (int how = 0; how < 2; ++how) {
          bool thrown = false;
          std::string why;
          ++c.transitions;
          ++c.evals;
          try {
            const std::pair<Box, Box> r = how ? b.bisect(vs[pos]) : b.bisect(pos);
            why = CheckBisect(b, pos, r);
            c.Outcome(vf::Cat(r.first[pos], r.second[pos]));
          } catch (const std::runtime_error&) { thrown = true; }
          if (thrown && Bisectable(s.lo, s.hi)) why = "refused";
          if (!thrown && s.lo == s.hi) why = "a point was bisected";
          if (!Same(b, before)) why = "the bisected box itself changed";
          if (!why.empty()) c.Fail("bisect", id + ": " + why);
          if (!thrown) ++c.nontrivial;
        }
      }
    Box z;
    z.Add(Mk("v", s.t)); z[0] = Iv(s.lo, s.hi);
    bool thrown = false;
    try { z.bisect(Mk("other", s.t)); } catch (const std::runtime_error&) { thrown = true; }
    if (!thrown) c.Fail("bisect-unknown", "bisecting by a variable that is not in the box was accepted");
    c.State(vf::Cat(static_cast<int>(s.t), ' ', s.lo, ' ', s.hi));
    ++c.traces;
    c.Sample(vf::Cat("bisect ", Show(z)));
  });
  // --- repeated bisection of a small box reaches every point exactly
  d.Add("bisect-to-points", 3 * 12, [=](int64_t u, vf::Ctx& c) {
    const int n = u % 12, kind = u / 12;
    const double base = kind == 0 ? 0 : kind == 1 ? -5 : 1000;
    Box b;
    const Variable x = Mk("x", T::INTEGER), y = Mk("y", T::BINARY);
    b.Add(x, base, base + n);
    b.Add(y);
    std::vector<Box> stack{b};
    std::map<std::pair<double, double>, int> leaves;
    int steps = 0;
    while (!stack.empty() && ++steps < 10000) {
      const Box t = stack.back();
      stack.pop_back();
      const auto m = t.MaxDiam();
      c.State(Show(t));
      if (m.second < 0) {
        if (t[0].lb() != t[0].ub() || t[1].lb() != t[1].ub()) c.Fail("leaf", "no dimension offered for " + Show(t));
        leaves[{t[0].lb(), t[1].lb()}]++;
        continue;
      }
      ++c.transitions;
      const auto r = t.bisect(m.second);
      stack.push_back(r.first);
      stack.push_back(r.second);
    }
    ++c.traces;
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j < 2; ++j) {
        ++c.evals;
        if (leaves[{base + i, static_cast<double>(j)}] != 1)
          c.Fail("leaves", vf::Cat("bisecting ", Show(b), " to the end reaches (", base + i, ", ", j, ") ", leaves[{base + i, static_cast<double>(j)}], " times"));
      }
    if (leaves.size() != 2u * (n + 1)) c.Fail("leaves", vf::Cat("bisecting ", Show(b), " to the end gives other points"));
    ++c.nontrivial;
  });
  // --- choice of a dimension
  const std::vector<std::pair<double, double>> widths{{0, 0}, {0, 1}, {-1, 1}, {1, 3}, {0, kDen}, {1, std::nextafter(1, 2)}, {1, std::nextafter(std::nextafter(1, 2), 2)}, {0, 1e300}, {-kMax, kMax}, {0, kInf}, {-kInf, kInf}, {-kInf, 0}, {5, 5}, {2, 2.5}};
  const int W = widths.size();
  d.Add("widest", W * W, [=](int64_t u, vf::Ctx& c) {
    for (int k = 0; k < W; ++k)
      for (int ty = 0; ty < 8; ++ty) {
        const int ix[3] = {static_cast<int>(u / W), static_cast<int>(u % W), k};
        Box b;
        bool skip = false;
        for (int j = 0; j < 3; ++j) {
          const auto& w = widths[ix[j]];
          const bool in = ty >> j & 1;
          if (in && (w.first != std::floor(w.first) || w.second != std::floor(w.second) || std::fabs(w.first) > kIntMax || std::fabs(w.second) > kIntMax)) skip = true;
          if (!skip) b.Add(Mk("xyz" + j, in ? T::INTEGER : T::CONTINUOUS), w.first, w.second);
        }
        if (skip) continue;
        c.Note(Show(b));
        const Box before(b);
        auto best = [&](unsigned mask) {
          double m = 0;
          for (int j = 0; j < 3; ++j)
            if ((mask >> j & 1) && Bisectable(widths[ix[j]].first, widths[ix[j]].second)) m = std::max(m, b[j].diam());
          return m;
        };
        auto judge = [&](const std::string& what, unsigned mask, double diam, int dim) {
          ++c.evals;
          const double m = best(mask);
          std::string why;
          if (dim < 0) {
            if (m > 0) why = vf::Cat("no dimension offered although one of width ", m, " can be bisected");
          } else if (dim > 2 || !(mask >> dim & 1)) {
            why = vf::Cat("dimension ", dim, " is not among those asked about");
          } else if (!Bisectable(b[dim].lb(), b[dim].ub())) {
            why = vf::Cat("dimension ", dim, " cannot be bisected");
          } else if (b[dim].diam() != m || diam != m) {
            why = vf::Cat("dimension ", dim, " with width ", diam, ", the maximum is ", m);
          }
          if (!why.empty()) c.Fail(what, vf::Cat(what, " of ", Show(b), " asked about ", mask, ": ", why));
          c.Outcome(vf::Cat(what, dim));
        };
        const auto m = b.MaxDiam();
        ++c.transitions;
        judge("MaxDiam", 7, m.first, m.second);
        for (unsigned mask = 1; mask < 8; ++mask) {
          DynamicBitset s(3);
          for (int j = 0; j < 3; ++j) if (mask >> j & 1) s.set(j);
          const auto f = FindMaxDiam(b, s);
          ++c.transitions;
          judge("FindMaxDiam", mask, f.first, f.second);
          Box l, r;
          const int bd = BranchLargestFirst(b, s, &l, &r);
          ++c.transitions;
          judge("BranchLargestFirst", mask, bd >= 0 && bd < 3 ? b[bd].diam() : 0, bd);
          if (bd >= 0 && bd < 3) {
            const std::string why = CheckBisect(b, bd, {l, r});
            if (!why.empty()) c.Fail("branch", "BranchLargestFirst on " + Show(b) + ": " + why);
            ++c.nontrivial;
          }
          if (s.count() != static_cast<size_t>(__builtin_popcount(mask))) c.Fail("branch-set", "the set asked about changed");
        }
        if (!Same(b, before)) c.Fail("widest-const", "asking for the widest dimension changed " + Show(before));
        ++c.traces;
      }
    c.State(std::to_string(u));
    c.Sample(vf::Cat("all boxes whose first two widths are ", u / W, ", ", u % W));
  });
  // --- every history of operations on two boxes
  const std::vector<Variable> vs{Mk("x", T::CONTINUOUS), Mk("i", T::INTEGER), Mk("b", T::BOOLEAN), Mk("n", T::BINARY)};
  struct St {
    Box r[2];
    M m[2];
  };
  struct Op {
    std::string name;
    std::function<bool(St*)> run;  // false: not applicable
  };
  std::vector<Op> ops;
  auto has = [](const M& m, const Variable& v) {
    for (const Variable& w : m.v) if (w.equal_to(v)) return true;
    return false;
  };
  auto dom = [](T t, double* lo, double* hi) {
    *lo = t == T::CONTINUOUS ? -kInf : t == T::INTEGER ? -kIntMax : 0;
    *hi = t == T::CONTINUOUS ? kInf : t == T::INTEGER ? kIntMax : 1;
  };
  for (int s = 0; s < 2; ++s) {
    for (size_t k = 0; k < vs.size(); ++k) {
      if (s == 1 && k > 1) continue;
      ops.push_back({vf::Cat("AB"[s], ".Add(", vs[k], ")"), [=](St* t) {
        if (has(t->m[s], vs[k])) return false;
        t->r[s].Add(vs[k]);
        double lo, hi;
        dom(vs[k].get_type(), &lo, &hi);
        t->m[s].v.push_back(vs[k]); t->m[s].lo.push_back(lo); t->m[s].hi.push_back(hi);
        return true;
      }});
      if (s == 0 && k != 2) ops.push_back({vf::Cat("A.Add(", vs[k], ", 0, 1)"), [=](St* t) {
        if (has(t->m[s], vs[k])) return false;
        t->r[s].Add(vs[k], 0, 1);
        t->m[s].v.push_back(vs[k]); t->m[s].lo.push_back(0); t->m[s].hi.push_back(1);
        return true;
      }});
    }
    ops.push_back({vf::Cat("AB"[s], " = ", "BA"[s]), [=](St* t) { t->r[s] = t->r[1 - s]; t->m[s] = t->m[1 - s]; return true; }});
    ops.push_back({vf::Cat("AB"[s], "[last] = [2, 3]"), [=](St* t) {
      M& m = t->m[s];
      if (m.v.empty() || m.empty) return false;
      t->r[s][static_cast<int>(m.v.size()) - 1] = Iv(2, 3);
      m.lo.back() = 2; m.hi.back() = 3;
      return true;
    }});
  }
  ops.push_back({"A[first variable] = [-1, 0]", [=](St* t) {
    M& m = t->m[0];
    if (m.v.empty() || m.empty) return false;
    t->r[0][m.v[0]] = Iv(-1, 0);
    m.lo[0] = -1; m.hi[0] = 0;
    return true;
  }});
  ops.push_back({"A.mutable_interval_vector()[1] = [7, 8]", [=](St* t) {
    M& m = t->m[0];
    if (m.v.size() < 2 || m.empty) return false;
    t->r[0].mutable_interval_vector()[1] = Iv(7, 8);
    m.lo[1] = 7; m.hi[1] = 8;
    return true;
  }});
  ops.push_back({"A.InplaceUnion(B)", [=](St* t) {
    M &m = t->m[0], &n = t->m[1];
    if (m.v.size() != n.v.size()) return false;
    for (size_t i = 0; i < m.v.size(); ++i) if (!m.v[i].equal_to(n.v[i])) return false;
    t->r[0].InplaceUnion(t->r[1]);
    if (n.empty) return true;
    if (m.empty) m = n;
    for (size_t i = 0; i < m.v.size(); ++i) { m.lo[i] = std::min(m.lo[i], n.lo[i]); m.hi[i] = std::max(m.hi[i], n.hi[i]); }
    return true;
  }});
  for (int s = 0; s < 2; ++s)
    ops.push_back({vf::Cat("AB"[s], ".set_empty()"), [=](St* t) { t->r[s].set_empty(); t->m[s].empty = true; return true; }});
  ops.push_back({"swap by moves", [=](St* t) {
    Box z(std::move(t->r[0]));
    t->r[0] = std::move(t->r[1]);
    t->r[1] = std::move(z);
    std::swap(t->m[0], t->m[1]);
    return true;
  }});
  ops.push_back({"B = Box({x, i})", [=](St* t) {
    t->r[1] = Box({vs[0], vs[1]});
    t->m[1] = M{{vs[0], vs[1]}, {-kInf, -kIntMax}, {kInf, kIntMax}, false};
    return true;
  }});
  const int n = ops.size(), depth = th ? 6 : 5;
  d.Add("histories", n * n, [=](int64_t u, vf::Ctx& c) {
    std::string path;
    std::function<void(const St&, int, int)> step = [&](const St& st, int o, int k) {
      St nx = st;  // the copy itself is part of what is checked
      const std::string save = path;
      path += "; " + ops[o].name;
      c.Note(path);
      if (ops[o].run(&nx)) {
        ++c.transitions;
        for (int s = 0; s < 2; ++s) {
          ++c.evals;
          std::string why = Check(nx.r[s], nx.m[s], vs);
          if (!why.empty()) c.Fail("history", vf::Cat("after", path, ": box ", "AB"[s], ": ", why));
          why = Check(st.r[s], st.m[s], vs);
          if (!why.empty()) c.Fail("history-copy", vf::Cat("the copy of box ", "AB"[s], " made before the last of", path, ": ", why));
        }
        bool same = nx.m[0].v.size() == nx.m[1].v.size();
        for (size_t i = 0; same && i < nx.m[0].v.size(); ++i) same = nx.m[0].v[i].equal_to(nx.m[1].v[i]);
        if (same) {
          const M &a = nx.m[0], &b = nx.m[1];
          const bool eq = a.empty || b.empty ? a.empty && b.empty : a.lo == b.lo && a.hi == b.hi;
          if (!a.v.empty() && ((nx.r[0] == nx.r[1]) != eq || (nx.r[0] != nx.r[1]) == eq)) c.Fail("history-eq", "after" + path + ": equality of the two boxes");
        } else if (nx.m[0].v.size() == nx.m[1].v.size() && nx.r[0] == nx.r[1]) {
          c.Fail("history-eq", "after" + path + ": boxes over different variables are equal");
        }
        if (k + 1 < depth) for (int p = 0; p < n; ++p) step(nx, p, k + 1);
        else { ++c.traces; c.Outcome(vf::Cat(nx.m[0].v.size(), nx.m[1].v.size(), nx.m[0].empty, nx.m[1].empty)); }
        if (!nx.m[0].v.empty()) ++c.nontrivial;
      }
      path = save;
    };
    St s0;
    const int a = u / n, b = u % n;
    St s1 = s0;
    if (!ops[a].run(&s1)) return;
    path = " " + ops[a].name;
    for (int s = 0; s < 2; ++s) {
      const std::string why = Check(s1.r[s], s1.m[s], vs);
      if (!why.empty()) c.Fail("history", vf::Cat("after", path, ": box ", "AB"[s], ": ", why));
    }
    step(s1, b, 1);
    c.State(std::to_string(u));
    c.Sample("histories starting with" + path);
  });
  d.rule = "a box is a list of distinct variables with an interval each; copies are independent; bisection covers, shrinks and touches one dimension; the widest bisectable dimension asked about is chosen";
  d.bounds = {vf::Cat(specs.size(), " intervals and types x 6 positions, by index and by variable"), vf::Cat(W, "^3 boxes x 8 typings x 7 sets of dimensions"), vf::Cat("every history of ", depth, " of ", n, " operations on two boxes"), "integer variables with integral bounds, and some with fractional bounds around at least two integers (as pruning leaves them)"};
  return d.Run();
}
