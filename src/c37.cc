// BUILD: full
// C37: interval evaluation and the verdict on a constraint, for every term of
// bounded depth over every box of a list, against the reference value at every
// grid point inside the box.
#include "dreal/solver/expression_evaluator.h"
#include "dreal/solver/formula_evaluator.h"
#include "dreal/util/box.h"
#include "terms.h"
using namespace dreal;
using Iv = Box::Interval;
using terms::T; using uni::Op;
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  const Variable x{"x"}, y{"y"}, z{"z"};
  uni::VV().Add(x); uni::VV().Add(y);
  const double inf = std::numeric_limits<double>::infinity();
  const std::vector<T> ts = terms::Build(x, y, th ? 2 : 1);
  const std::vector<std::pair<double, double>> iv{{-2, -0.5}, {-1, 1}, {0, 2}, {0.25, 0.75}, {1, 3}, {2, 2}, {0, 0}, {-3, inf}, {-inf, inf}, {1, std::nextafter(1, 2)}};
  const std::vector<double> pts{-100, -3, -2, -1.5, -1, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, std::nextafter(1, 2), 1.5, 2, 2.5, 3, 50};
  const int NI = iv.size(), NP = pts.size();
  auto in = [](const std::pair<double, double>& b, double p) { return b.first <= p && p <= b.second; };
  // reference values of a term on the point grid
  auto table = [=](const T& t) {
    std::vector<ref::FV> r;
    ref::Env e;
    e.v.assign(80, 0.0);
    for (int i = 0; i < NP; ++i)
      for (int j = 0; j < NP; ++j) {
        e.v[0] = pts[i]; e.v[1] = pts[j];
        ref::FV v = ref::EvalE(t.n, e);
        if (t.var_exp && (pts[i] <= 0 || pts[j] <= 0)) v = ref::Unk();
        r.push_back(v);
      }
    return r;
  };
  auto mkbox = [=](int i, int j, int shape) {
    Box b;
    auto ax = [&] { b.Add(x, iv[i].first, iv[i].second); };
    auto ay = [&] { b.Add(y, iv[j].first, iv[j].second); };
    if (shape == 0) { ax(); ay(); }
    else { b.Add(z, 0, 1); ay(); ax(); }
    return b;
  };
  const int chunk = 50;
  d.Add("enclosure", (ts.size() + chunk - 1) / chunk, [=](int64_t u, vf::Ctx& c) {
    for (size_t k = u * chunk; k < std::min(ts.size(), static_cast<size_t>(u + 1) * chunk); ++k) {
      const T& t = ts[k];
      c.Note(t.e.to_string());
      const auto tab = table(t);
      const ExpressionEvaluator ev{t.e};
      c.State(ref::Str(t.n));
      for (int i = 0; i < NI; ++i)
        for (int j = 0; j < NI; ++j) {
          const Box b = mkbox(i, j, (i + j) & 1);
          const Box before(b);
          const Iv r = ev(b);
          ++c.transitions;
          if (b != before) c.Fail("const", "evaluating " + t.e.to_string() + " changed the box");
          for (int p = 0; p < NP; ++p) {
            if (!in(iv[i], pts[p])) continue;
            for (int q = 0; q < NP; ++q) {
              if (!in(iv[j], pts[q])) continue;
              const ref::FV& v = tab[p * NP + q];
              if (v.s != ref::St::Def) continue;
              ++c.evals;
              const double tol = 1e-13 * (1 + v.mag);
              if (r.is_empty() || v.hi + tol < r.lb() || v.lo - tol > r.ub())
                c.Fail(t.e.to_string(), vf::Cat(t.e, " over x in [", iv[i].first, ", ", iv[i].second, "], y in [", iv[j].first, ", ", iv[j].second, "] evaluates to [", r.lb(), ", ", r.ub(), "], but at (", pts[p], ", ", pts[q], ") it is ", v.lo));
            }
          }
          ++c.traces;
          if (!r.is_empty() && r.lb() > -inf && r.ub() < inf) ++c.nontrivial;
          c.Outcome(vf::Cat(r.is_empty(), r.lb() > 0, r.ub() < 0, r.lb() == r.ub()));
        }
      if (k == u * chunk) c.Sample(vf::Cat("all boxes for ", t.e));
    }
  });
  // verdicts: term rel constant, term rel term, negations
  std::vector<T> lhs;
  for (auto& t : ts) { if (!th && lhs.size() >= 420) break; lhs.push_back(t); }
  std::vector<T> rhs;
  for (const Expression& e : {Expression(0.0), Expression(1.0), Expression(-0.5), Expression(x), Expression(y * y), dreal::drake::symbolic::real_constant(0.1, std::nextafter(0.1, 1), true)})
    rhs.push_back({e, uni::LiftE(e), false});
  const int vchunk = 10;
  d.Add("verdicts", (lhs.size() + vchunk - 1) / vchunk, [=](int64_t u, vf::Ctx& c) {
    for (size_t k = u * vchunk; k < std::min(lhs.size(), static_cast<size_t>(u + 1) * vchunk); ++k) {
      const auto ta = table(lhs[k]);
      for (const T& g : rhs) {
        const auto tb = table(g);
        for (size_t ro = 0; ro < 12; ++ro) {
          const Op rel = uni::RelOps()[ro % 6];
          const bool neg = ro >= 6;
          Formula f = uni::ApplyRel(rel, lhs[k].e, g.e);
          if (is_true(f) || is_false(f)) continue;
          const Formula plain = f;
          if (neg) f = !f;
          if (!is_relational(f) && !(is_negation(f) && is_relational(get_operand(f)))) continue;
          c.Note(f.to_string());
          const FormulaEvaluator ev{make_relational_formula_evaluator(f)};
          // the difference of the sides may drop a variable; nothing else may
          const auto got = uni::IdxSet(ev.variables()), hi = uni::FreeOf(uni::LiftF(plain)), lo = uni::FreeOf(uni::LiftE(lhs[k].e - g.e));
          if (!std::includes(hi.begin(), hi.end(), got.begin(), got.end()) || !std::includes(got.begin(), got.end(), lo.begin(), lo.end()))
            c.Fail("vars", "the variables reported for " + f.to_string());
          if (!ev.formula().EqualTo(f)) c.Fail("formula", "the formula reported for " + f.to_string());
          const bool want_neq = neg ? rel == Op::kEq : rel == Op::kNe;
          if (ev.is_neq() != want_neq) c.Fail("is_neq", "is_neq of " + f.to_string());
          auto cst = [](const Expression& e) { return is_constant(e) || is_real_constant(e); };
          const Formula core = is_negation(f) ? get_operand(f) : f;
          const Expression &ll = get_lhs_expression(core), &rr = get_rhs_expression(core);
          const bool simple = (cst(ll) && is_variable(rr)) || (is_variable(ll) && cst(rr));
          if (ev.is_simple_relational() && !simple) c.Fail("simple", "is_simple_relational of " + f.to_string());
          c.State(f.to_string());
          for (int i = 0; i < NI; ++i)
            for (int j = 0; j < NI; ++j) {
              if (!th && (i + j + k) % 2) continue;
              const Box b = mkbox(i, j, (i + j) & 1);
              const FormulaEvaluationResult r = ev(b);
              ++c.transitions;
              using Ty = FormulaEvaluationResult::Type;
              const Iv& w = r.evaluation();
              bool f_true = false, f_false = false;
              for (int p = 0; p < NP; ++p) {
                if (!in(iv[i], pts[p])) continue;
                for (int q = 0; q < NP; ++q) {
                  if (!in(iv[j], pts[q])) continue;
                  const ref::FV &va = ta[p * NP + q], &vb = tb[p * NP + q];
                  if (va.s != ref::St::Def || vb.s != ref::St::Def) continue;
                  ref::Tri h = ref::Rel(rel, va, vb);
                  if (neg) h = ref::Not(h);
                  ++c.evals;
                  if (h == ref::Tri::T) f_true = true;
                  if (h == ref::Tri::F) f_false = true;
                  std::string why;
                  if (r.type() == Ty::VALID && h == ref::Tri::F) why = "judged valid, but does not hold";
                  if (r.type() == Ty::UNSAT && h == ref::Tri::T) why = "judged unsatisfiable, but holds";
                  if (r.type() == Ty::UNKNOWN && h == ref::Tri::F) {
                    const double gap = std::max({0.0, va.lo - vb.hi, vb.lo - va.hi});
                    if (!(gap <= w.diam() + 1e-12 * (1 + va.mag + vb.mag))) why = vf::Cat("undecided with error ", w.diam(), ", but violated by ", gap);
                  }
                  if (!why.empty()) c.Fail(f.to_string(), vf::Cat(f, " over x in [", iv[i].first, ", ", iv[i].second, "], y in [", iv[j].first, ", ", iv[j].second, "]: ", why, " at (", pts[p], ", ", pts[q], ")"));
                }
              }
              ++c.traces;
              if (r.type() != Ty::UNKNOWN) ++c.nontrivial;
              if (r.type() == Ty::VALID) ++c.extra["valid"];
              else if (r.type() == Ty::UNSAT) ++c.extra["unsat"];
              else ++c.extra["undecided"];
              c.Outcome(vf::Cat(static_cast<int>(r.type()), f_true, f_false));
            }
        }
      }
      c.Sample(vf::Cat("constraints on ", lhs[k].e));
    }
  });
  // a number that is only known to lie in an enclosure: every number of it counts
  const std::vector<double> rl{-3, -1, -0.1, -1e-300, -4.9406564584124654e-324, 0, 1e-300, 0.1, 0.5, 1, 2, 1e16};
  d.Add("enclosed constants", rl.size() * 2, [=](int64_t u, vf::Ctx& c) {
    const double lo = rl[u / 2], hi = std::nextafter(lo, inf);
    const Expression k = dreal::drake::symbolic::real_constant(lo, hi, u % 2 == 0);
    using Fn = std::function<double(double, double)>;  // exact at the points used
    const std::vector<std::pair<Expression, Fn>> es{{k, [](double q, double) { return q; }}, {k + x, [](double q, double) { return q; }}, {x + k, [](double q, double) { return q; }}, {k - x, [](double q, double) { return q; }},
        {x - k, [](double q, double) { return -q; }}, {k * y, [](double q, double b) { return q * b; }}, {-(y * k), [](double q, double b) { return -q * b; }}, {2 * k, [](double q, double) { return 2 * q; }}, {max(k, k * y), [](double q, double b) { return std::max(q, q * b); }},
        {min(x + k, k * y), [](double q, double b) { return std::min(q, q * b); }}, {abs(k + x), [](double q, double) { return std::fabs(q); }}, {k * y + x * k, [](double q, double b) { return q * b; }}, {k / y, [](double q, double b) { return q / b; }}};
    for (size_t i = 0; i < es.size(); ++i)
      for (double b : {-2.0, -1.0, 1.0, 2.0, 4.0}) {
        Box box; box.Add(x, 0, 0); box.Add(y, b, b);
        const std::string id = vf::Cat(es[i].first, " with [", lo, ", ", hi, "] at x = 0, y = ", b);
        c.Note(id); c.State(id); ++c.transitions; ++c.traces;
        const Box::Interval r = ExpressionEvaluator(es[i].first)(box);
        for (double q : {lo, hi}) {
          const double w = es[i].second(q, b);
          if (std::fabs(w) > 0 && std::fabs(w) < 1e-307) continue;  // not exact
          ++c.evals;
          if (!(r.lb() <= w && w <= r.ub())) c.Fail(vf::Cat("enclosed ", id), vf::Cat(id, " evaluates to [", r.lb(), ", ", r.ub(), "], which lacks ", w));
        }
        // verdicts hold for every number of the enclosure
        const Expression e = es[i].first;
        if (is_constant(e) || is_real_constant(e)) continue;
        for (double t : {lo, hi}) for (int rel = 0; rel < 12; ++rel) {
          const double w = es[i].second(t, b);
          if (std::fabs(w) < 1e-307) continue;
          Formula f = uni::ApplyRel(uni::RelOps()[rel % 6], e, Expression(w));
          if (rel >= 6) f = !f;
          if (is_true(f) || is_false(f) || !(is_relational(f) || is_relational(get_operand(f)))) continue;
          const auto v = make_relational_formula_evaluator(f)(box);
          for (double q : {lo, hi}) {
            const double g = es[i].second(q, b);
            if (std::fabs(g) < 1e-307) continue;
            bool h = uni::RelOps()[rel % 6] == Op::kEq ? g == w : uni::RelOps()[rel % 6] == Op::kNe ? g != w : uni::RelOps()[rel % 6] == Op::kLt ? g < w : uni::RelOps()[rel % 6] == Op::kLe ? g <= w : uni::RelOps()[rel % 6] == Op::kGt ? g > w : g >= w;
            if (rel >= 6) h = !h;
            ++c.evals;
            if ((v.type() == FormulaEvaluationResult::Type::VALID && !h) || (v.type() == FormulaEvaluationResult::Type::UNSAT && h)) c.Fail(vf::Cat("enclosed ", f), vf::Cat(f, " with [", lo, ", ", hi, "] at x = 0, y = ", b, ": judged ", h ? "unsatisfiable" : "valid", ", not for ", q));
          }
        }
        ++c.nontrivial;
      }
    c.Outcome(vf::Cat(u));
  });
  d.rule = "the interval of a term over a box contains its reference value at every grid point of the box where it is defined; valid, unsatisfiable and the error of an undecided verdict agree with every grid point";
  d.bounds = {"12 enclosed constants, both representatives, in 13 terms at 5 points with 12 comparisons each", vf::Cat(ts.size(), " terms x ", NI * NI, " boxes x up to ", NP * NP, " points"), vf::Cat(lhs.size(), " terms x ", rhs.size(), " right-hand sides x 6 relations x 2 polarities x boxes"), "a varying exponent is judged at positive bases only", "comparison with 1e-13 relative slack"};
  return d.Run();
}
