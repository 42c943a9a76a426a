// BUILD: full
// C27: turning an asserted bound into a box bound, against the set of points.
#include "dreal/solver/filter_assertion.h"
#include "dreal/symbolic/symbolic.h"
#include "dreal/util/box.h"
#include "vf.h"
using namespace dreal;
using Iv = Box::Interval;
namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kMax = std::numeric_limits<double>::max();
const double kMin = std::numeric_limits<double>::min();
const double kDen = std::numeric_limits<double>::denorm_min();
const double kIntMax = std::numeric_limits<int>::max();
using T = Variable::Type;
enum Rel { EQ, NE, LT, LE, GT, GE };
const char* const kRel[] = {"==", "!=", "<", "<=", ">", ">="};
Formula Mk(const Expression& a, int r, const Expression& b) {
  switch (r) {
    case EQ: return a == b;
    case NE: return a != b;
    case LT: return a < b;
    case LE: return a <= b;
    case GT: return a > b;
    default: return a >= b;
  }
}
// truth of p rel c for an unknown c in [lo, hi]: 1, 0 or -1 when it depends on c
int Holds(double p, int r, double lo, double hi) {
  const bool pt = lo == hi;
  switch (r) {
    case EQ: return p < lo || p > hi ? 0 : pt ? 1 : -1;
    case NE: return p < lo || p > hi ? 1 : pt ? 0 : -1;
    case LT: return p < lo ? 1 : p >= hi ? 0 : -1;
    case LE: return p <= lo ? 1 : p > hi ? 0 : -1;
    case GT: return p > hi ? 1 : p <= lo ? 0 : -1;
    default: return p >= hi ? 1 : p < lo ? 0 : -1;
  }
}
const char* Name(FilterAssertionResult r) {
  return r == FilterAssertionResult::NotFiltered ? "kept" : r == FilterAssertionResult::FilteredWithChange ? "absorbed with a change" : "absorbed without a change";
}
struct C {  // a constant: a point or an enclosure of an unknown number
  double lo, hi;
  bool real;
  Expression E() const { return real ? real_constant(lo, hi, false) : Expression(lo); }
};
}  // namespace

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  std::vector<C> cs;
  std::vector<double> ps{-kMax, -1e300, -2147483648.0, -2.5, -1, -kMin, -kDen, 0, kDen, kMin, 2 * kMin, 0.5, 1, 1.5, 2, 2.5, 3, 1e17, 1e300, kMax};
  if (th) for (double x : {-3.0, -2.0, -0.5, -1e-5, 0.1, 1e-5, 0.7, 2147483647.0, 2147483648.0, 1e16}) ps.push_back(x);
  for (double p : ps) cs.push_back({p, p, false});
  for (double p : {-2.5, -1.0, -kDen, 0.0, kMin, 0.1, 1.0, 1.5, 2.0, 1e17}) cs.push_back({p, std::nextafter(p, kInf), true});
  std::vector<std::pair<double, double>> iv;
  std::vector<double> ends{-kInf, -1e300, -2.5, -1, -kDen, 0, kDen, 0.5, 1, std::nextafter(1, 2), 2, 2.5, 1e300, kInf};
  for (double a : ends) for (double b : ends) if (a <= b && a < kInf && b > -kInf) iv.push_back({a, b});
  const size_t continuous = iv.size();
  std::vector<double> ie{-kIntMax, -3, -1, 0, 1, 2, 3, 5, kIntMax};
  for (double a : ie) for (double b : ie) if (a <= b) iv.push_back({a, b});
  const size_t integer = iv.size();
  iv.push_back({0, 0}); iv.push_back({0, 1}); iv.push_back({1, 1});
  const size_t binary = iv.size();
  iv.push_back({1, 0});  // an empty box, of each kind
  iv.push_back({1, 0});
  auto grid = [](const C& k, double lo, double hi, bool integral) {
    std::set<double> g;
    for (double base : {k.lo, k.hi, lo, hi, 0.0, 1.0, 2.0, -1.0}) {
      if (integral) {
        for (double q : {std::floor(base) - 1, std::floor(base), std::ceil(base), std::ceil(base) + 1}) if (std::isfinite(q)) g.insert(q);
        continue;
      }
      double a = base, b = base;
      if (std::isfinite(base)) g.insert(base);
      for (int i = 0; i < 3; ++i) {
        a = std::nextafter(a, -kInf);
        b = std::nextafter(b, kInf);
        if (std::isfinite(a)) g.insert(a);
        if (std::isfinite(b)) g.insert(b);
      }
    }
    if (!integral) { g.insert(-1e200); g.insert(1e200); g.insert(0.25); }
    return g;
  };
  d.Add("bounds", iv.size(), [=](int64_t u, vf::Ctx& c) {
    const size_t iu = u;
    const bool em = iu >= binary;
    const T t = iu < continuous || iu == binary ? T::CONTINUOUS : iu < integer || em ? T::INTEGER : T::BINARY;
    const double lo = iv[u].first, hi = iv[u].second;
    const Variable x{"x", t}, y{"y"};
    for (const C& k : cs)
      for (int form = 0; form < 2 * 6 * 2; ++form)
        for (int pos = 0; pos < 2; ++pos) {
          const int rel = form % 6;
          const bool swap = form / 6 % 2, neg = form / 12;
          // x rel c, or c rel x
          static const int mirror[] = {EQ, NE, GT, GE, LT, LE};
          static const int negate[] = {NE, EQ, GE, GT, LE, LT};
          int truth = swap ? mirror[rel] : rel;
          if (neg) truth = negate[truth];
          Formula f = swap ? Mk(k.E(), rel, Expression(x)) : Mk(Expression(x), rel, k.E());
          if (neg) f = !f;
          Box b;
          if (pos == 1) b.Add(y, -4, 4);
          if (em) b.Add(x); else b.Add(x, lo, hi);
          if (pos == 0) b.Add(y, -4, 4);
          if (em) b.set_empty();
          const std::string id = vf::Cat(neg ? "not " : "", swap ? "" : "x ", swap ? (k.real ? vf::Cat("[", k.lo, ",", k.hi, "] ") : vf::Cat(k.lo, " ")) : "", kRel[rel], swap ? " x" : k.real ? vf::Cat(" [", k.lo, ",", k.hi, "]") : vf::Cat(" ", k.lo),
                                         " on x", t == T::CONTINUOUS ? "" : t == T::INTEGER ? ":int" : ":binary", " in [", lo, ", ", hi, "], dimension ", pos);
          c.Note(id);
          const FilterAssertionResult r = FilterAssertion(f, &b);
          ++c.transitions;
          c.Outcome(vf::Cat(Name(r), b.empty(), ' ', static_cast<int>(t), truth));
          std::string why;
          const bool absorbed = r != FilterAssertionResult::NotFiltered;
          if (b.size() != 2 || b.index(x) != pos) why = "the box lost its shape";
          else if (em) { if (!b.empty()) why = "an empty box came back to life"; }
          else {
            const Iv n = b.empty() ? Iv::EMPTY_SET : b[x];
            if (!b.empty() && (b[y].lb() != -4 || b[y].ub() != 4)) why = "another dimension changed";
            if (!b.empty() && n.is_empty()) why = "one dimension is empty, the box is not";
            if (r == FilterAssertionResult::FilteredWithoutChange && (b.empty() || n.lb() != lo || n.ub() != hi)) why = "changed the box without saying so";
            bool any = false;
            for (double p : grid(k, lo, hi, t != T::CONTINUOUS)) {
              if (!(lo <= p && p <= hi)) {
                if (!n.is_empty() && n.lb() <= p && p <= n.ub()) why = vf::Cat("the point ", p, " was added");
                continue;
              }
              ++c.evals;
              const int h = Holds(p, truth, k.lo, k.hi);
              const bool in = !n.is_empty() && n.lb() <= p && p <= n.ub();
              any = any || h != 0;
              if (h == 1 && !in) why = vf::Cat("the point ", p, " satisfies it and was lost");
              // the number may be anywhere in its enclosure
              if (h == -1 && k.real && !in) why = vf::Cat("the point ", p, " may satisfy it and was lost");
              // the end of a strict bound may stay in for reals (one step)
              const bool strict = truth == LT || truth == GT;
              if (h == 0 && in && absorbed && !(t == T::CONTINUOUS && strict && (p == k.lo || p == k.hi)))
                why = vf::Cat("the point ", p, " does not satisfy it and is still there");
            }
            if (absorbed && !any && t != T::CONTINUOUS && truth != NE && !b.empty() && n.lb() > -1e9 && n.ub() < 1e9) why = vf::Cat("no integer satisfies it and the box is [", n.lb(), ", ", n.ub(), "]");
            if (n.lb() != lo || n.ub() != hi || b.empty()) ++c.nontrivial;
          }
          if (!why.empty()) c.Fail(vf::Cat(why.substr(0, 12), static_cast<int>(t), truth), vf::Cat(id, ": ", Name(r), ", ", why));
          ++c.traces;
        }
    c.State(vf::Cat(static_cast<int>(t), ' ', lo, ' ', hi));
    c.Sample(vf::Cat("all bounds on x in [", lo, ", ", hi, "]"));
  });
  // formulas that are not simple bounds: whatever is done must be a sound cut,
  // and an absorbed one an exact one, on every grid point of the plane
  struct Other {
    Formula f;
    std::function<int(double, double)> holds;
  };
  const Variable x{"x"}, y{"y"};
  const Variable bv{"b", T::BOOLEAN};
  std::vector<Other> others;
  std::vector<std::pair<Expression, std::function<double(double, double)>>> es{
      {x + y, [](double a, double b) { return a + b; }}, {2 * x, [](double a, double) { return 2 * a; }}, {-x, [](double a, double) { return -a; }},
      {x * x, [](double a, double) { return a * a; }}, {abs(x), [](double a, double) { return std::fabs(a); }}, {x - 1, [](double a, double) { return a - 1; }},
      {0.5 * x, [](double a, double) { return 0.5 * a; }}, {x, [](double a, double) { return a; }}, {y, [](double, double b) { return b; }}};
  for (auto& e : es)
    for (auto& g : es)
      for (int r = 0; r < 6; ++r) {
        auto e2 = e.second, g2 = g.second;
        others.push_back({Mk(e.first, r, g.first), [e2, g2, r](double a, double b) { const double k = g2(a, b); return Holds(e2(a, b), r, k, k); }});
      }
  for (auto& e : es)
    for (double k : {-1.0, 0.0, 1.0, 2.0})
      for (int r = 0; r < 6; ++r) {
        auto e2 = e.second;
        others.push_back({Mk(e.first, r, k), [e2, k, r](double a, double b) { return Holds(e2(a, b), r, k, k); }});
      }
  others.push_back({x > 1 && y < 2, [](double a, double b) { return a > 1 && b < 2; }});
  others.push_back({x > 1 || y < 2, [](double a, double b) { return a > 1 || b < 2; }});
  others.push_back({!(x > 1 && y < 2), [](double a, double b) { return !(a > 1 && b < 2); }});
  others.push_back({!(x > 1 || y < 2), [](double a, double b) { return !(a > 1 || b < 2); }});
  others.push_back({x > 1 && x < 0, [](double, double) { return 0; }});
  others.push_back({Formula::True(), [](double, double) { return 1; }});
  others.push_back({dreal::forall({Variable{"q"}}, x > 1), [](double a, double) { return a > 1; }});
  const std::vector<std::pair<double, double>> small{{-3, 3}, {0, 2}, {1, 1}, {2, 5}, {-1, 0.5}};
  d.Add("other-formulas", others.size(), [=](int64_t u, vf::Ctx& c) {
    const Other& o = others[u];
    for (int neg = 0; neg < 2; ++neg)
      for (auto& ix : small)
        for (auto& iy : small) {
          const Formula f = neg ? !o.f : o.f;
          Box b;
          b.Add(x, ix.first, ix.second);
          b.Add(y, iy.first, iy.second);
          const Box before(b);
          const std::string id = vf::Cat(f, " on x in [", ix.first, ", ", ix.second, "], y in [", iy.first, ", ", iy.second, "]");
          c.Note(id);
          const FilterAssertionResult r = FilterAssertion(f, &b);
          ++c.transitions;
          std::string why;
          const bool ab = r != FilterAssertionResult::NotFiltered;
          if (r == FilterAssertionResult::FilteredWithoutChange && b != before) why = "changed the box without saying so";
          for (double p = -4; p <= 6; p += 0.25)
            for (double q = -4; q <= 6; q += 0.25) {
              const bool was = before[x].contains(p) && before[y].contains(q);
              const bool is = !b.empty() && b[x].contains(p) && b[y].contains(q);
              int h = o.holds(p, q);
              if (neg) h = !h;
              ++c.evals;
              if (is && !was) why = vf::Cat("(", p, ", ", q, ") was added");
              if (was && !is && h) why = vf::Cat("(", p, ", ", q, ") satisfies it and was lost");
              if (ab && is && !h) {
                // the end of a strict bound may stay in
                bool edge = false;
                for (double e : {1e-9, -1e-9}) { const int hh = o.holds(p + e, q) || o.holds(p, q + e); edge = edge || (neg ? !o.holds(p + e, q) || !o.holds(p, q + e) : hh); }
                if (!edge) why = vf::Cat("absorbed, and (", p, ", ", q, ") does not satisfy it and is still there");
              }
            }
          if (!why.empty()) c.Fail(vf::Cat(f), id + ": " + why);
          c.Outcome(Name(r));
          ++c.traces;
        }
    c.State(vf::Cat(o.f));
    c.Sample(vf::Cat(o.f));
  });
  // sequences of bounds on one box
  struct B { int var, rel; double k; };
  std::vector<B> seq;
  for (int v = 0; v < 2; ++v)
    for (int r = 0; r < 6; ++r)
      for (double k : {0.0, 1.0, 2.0}) seq.push_back({v, r, k});
  const int S = seq.size();
  d.Add("sequences", S * S, [=](int64_t u, vf::Ctx& c) {
    const Variable v[2] = {Variable{"r"}, Variable{"i", T::INTEGER}};
    auto run = [&](const std::vector<int>& s) {
      Box b;
      b.Add(v[0], -3, 3);
      b.Add(v[1], -3, 3);
      std::vector<int> kept, absorbed;
      std::string id;
      for (int i : s) {
        const Formula f = Mk(Expression(v[seq[i].var]), seq[i].rel, seq[i].k);
        id += vf::Cat(id.empty() ? "" : "; ", f);
        c.Note(id);
        (FilterAssertion(f, &b) == FilterAssertionResult::NotFiltered ? kept : absorbed).push_back(i);
        ++c.transitions;
      }
      for (double p = -3; p <= 3; p += 0.5)
        for (double q = -3; q <= 3; q += 1) {
          bool all = true, must_out = false;
          for (int i : s) all = all && Holds(seq[i].var ? q : p, seq[i].rel, seq[i].k, seq[i].k) == 1;
          for (int i : absorbed) if (Holds(seq[i].var ? q : p, seq[i].rel, seq[i].k, seq[i].k) == 0 && !(seq[i].var == 0 && p == seq[i].k)) must_out = true;
          const bool in = !b.empty() && b[v[0]].contains(p) && b[v[1]].contains(q);
          ++c.evals;
          if (all && !in) c.Fail("seq-lost", vf::Cat("after ", id, ": the point (", p, ", ", q, ") satisfies all and was lost"));
          if (must_out && in) c.Fail("seq-kept", vf::Cat("after ", id, ": the point (", p, ", ", q, ") violates an absorbed bound"));
        }
      ++c.traces;
      c.Outcome(vf::Cat(kept.size(), absorbed.size(), b.empty()));
      if (b.empty()) ++c.nontrivial;
    };
    run({static_cast<int>(u / S), static_cast<int>(u % S)});
    for (int k = 0; k < S; ++k) run({static_cast<int>(u / S), static_cast<int>(u % S), k});
    c.State(std::to_string(u));
  });
  d.rule = "an absorbed bound leaves exactly the representable points (integers for integer variables) of the box that satisfy it, up to the end point of a strict real bound; a kept formula removes only points that violate it";
  d.bounds = {vf::Cat(iv.size(), " intervals and types (with empty boxes) x ", cs.size(), " constants and enclosures x 24 forms x 2 positions"), vf::Cat(others.size(), " other formulas x 2 polarities x 25 boxes x 41^2 points"), vf::Cat("every sequence of 3 of ", S, " bounds on a real and an integer variable")};
  return d.Run();
}
