// BUILD: full
// C29: every pruning operator, alone and composed: shrinks only, keeps every
// solution, reports what it changed, and explains an empty result by
// constraints which rule out every point.
#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/contractor/generic_contractor_generator.h"
#include "dreal/solver/config.h"
#include "dreal/util/nnfizer.h"
#include "terms.h"
using namespace dreal;
using terms::T;
using uni::Op;
namespace {
const std::vector<double> kReal{-3, -2, -1.5, -1, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3};
const std::vector<double> kInt{-3, -2, -1, 0, 1, 2, 3};
const int NR = kReal.size(), NI = kInt.size(), NPT = NR * NR * NI;
const double inf = std::numeric_limits<double>::infinity();
using Pr = std::pair<double, double>;
const std::vector<Pr> kBoxR{{-3, 3}, {-1, 1}, {0, 2}, {-2, -0.5}, {0.25, 0.75}, {1, 3}, {1, 1}, {-inf, inf}};
const std::vector<Pr> kBoxN{{-3, 3}, {0, 2}, {-2, -1}, {1, 1}, {-0.5, 1.5}};
using Tab = std::vector<ref::Tri>;

struct Atom { Formula f; ref::NP n; Tab t; bool pos_only; };

Tab Table(const ref::NP& n, bool pos_only) {
  Tab r(NPT);
  ref::Env e;
  e.v.assign(80, 0.0);
  int k = 0;
  for (int i = 0; i < NR; ++i)
    for (int j = 0; j < NR; ++j)
      for (int l = 0; l < NI; ++l, ++k) {
        e.v[0] = kReal[i]; e.v[1] = kReal[j]; e.v[2] = kInt[l];
        r[k] = pos_only && (e.v[0] <= 0 || e.v[1] <= 0 || e.v[2] <= 0) ? ref::Tri::U : ref::EvalF(n, e);
      }
  return r;
}
bool VarExp(const ref::NP& n) { return terms::VaryingExponent(n); }
Atom MkAtom(const Formula& f) {
  Atom a{f, uni::LiftF(f), {}, false};
  a.pos_only = VarExp(a.n);
  a.t = Table(a.n, a.pos_only);
  return a;
}
struct BX { Box b; std::vector<int> pts; };
struct Vars { Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER}; };
BX MkBox(const Vars& v, int i, int j, int l, int order) {
  BX r;
  auto ax = [&] { r.b.Add(v.x, kBoxR[i].first, kBoxR[i].second); };
  auto ay = [&] { r.b.Add(v.y, kBoxR[j].first, kBoxR[j].second); };
  // a box met while solving may have fractional ends in integer dimensions
  auto an = [&] { r.b.Add(v.n); r.b[v.n] = Box::Interval(kBoxN[l].first, kBoxN[l].second); };
  if (order == 0) { ax(); ay(); an(); } else { an(); ay(); ax(); }
  int k = 0;
  for (int a = 0; a < NR; ++a)
    for (int b = 0; b < NR; ++b)
      for (int c = 0; c < NI; ++c, ++k)
        if (kBoxR[i].first <= kReal[a] && kReal[a] <= kBoxR[i].second && kBoxR[j].first <= kReal[b] && kReal[b] <= kBoxR[j].second && kBoxN[l].first <= kInt[c] && kInt[c] <= kBoxN[l].second)
          r.pts.push_back(k);
  return r;
}
bool Inside(const Box& b, const Vars& v, int k) {
  const double x = kReal[k / (NR * NI)], y = kReal[k / NI % NR], n = kInt[k % NI];
  return b[v.x].contains(x) && b[v.y].contains(y) && b[v.n].contains(n);
}
std::string Pt(int k) { return vf::Cat("(", kReal[k / (NR * NI)], ", ", kReal[k / NI % NR], ", ", kInt[k % NI], ")"); }
std::string BoxStr(const Box& b) {
  std::string s = "{";
  for (int i = 0; i < b.size(); ++i) s += vf::Cat(i ? ", " : "", b.variable(i), " in [", b[i].lb(), ", ", b[i].ub(), "]");
  return s + "}";
}
// What the operator stands for, and what may be judged about it.
struct Spec {
  std::function<bool(int)> sat;  // the point certainly satisfies it
  std::vector<const Atom*> parts;  // constraints it may cite
  bool primitive{false}, explain{true};
};
void Check(vf::Ctx& c, const std::string& what, const Contractor& ctc, const Spec& s, const BX& bx, const Vars& v, int bp) {
  auto fail = [&](const std::string& why) { c.Fail(what, vf::Cat(what, " on ", BoxStr(bx.b), " (branching point ", bp, "): ", why)); };
  ContractorStatus cs(bx.b, bp);
  ctc.Prune(&cs);
  ++c.transitions; ++c.traces;
  const Box& r = cs.box();
  if (r.size() != bx.b.size()) return fail("another dimension");
  const bool empty = r.empty();
  bool changed = empty;
  if (!empty)
    for (int i = 0; i < r.size(); ++i) {
      if (!r.variable(i).equal_to(bx.b.variable(i))) return fail("another variable order");
      if (!(r[i].lb() >= bx.b[i].lb() && r[i].ub() <= bx.b[i].ub())) return fail(vf::Cat("grew to ", BoxStr(r)));
      if (r[i].lb() != bx.b[i].lb() || r[i].ub() != bx.b[i].ub()) {
        changed = true;
        if (s.primitive && !cs.output()[i]) return fail(vf::Cat("changed ", r.variable(i), " without reporting it"));
      }
    }
  for (int k : bx.pts) {
    ++c.evals;
    if (!s.sat(k)) continue;
    if (empty || !Inside(r, v, k)) return fail(vf::Cat("lost the solution ", Pt(k), ", left ", empty ? "nothing" : BoxStr(r)));
  }
  if (changed) ++c.nontrivial;
  if (empty && s.explain) {
    const std::set<Formula> ex = cs.Explanation();
    std::vector<const Atom*> cited;
    for (const Formula& f : ex) {
      const Atom* a = nullptr;
      for (const Atom* p : s.parts) if (p->f.EqualTo(f)) a = p;
      if (!a) return fail(vf::Cat("cites ", f, ", which it was not built from"));
      cited.push_back(a);
    }
    for (int k : bx.pts) {
      bool all = true;
      for (const Atom* a : cited) all = all && a->t[k] == ref::Tri::T;
      if (all) {
        std::string t;
        for (const Formula& f : ex) t += " " + f.to_string();
        return fail(vf::Cat("emptied the box citing {", t, " }, which ", Pt(k), " satisfies"));
      }
    }
    if (s.primitive && s.parts.size() == 1 && ex.empty()) return fail("emptied the box without citing its constraint");
    ++c.extra["explained"];
  }
  // the same again from the same box
  ContractorStatus c2(bx.b, bp);
  ctc.Prune(&c2);
  if (c2.box().empty() != empty || (!empty && c2.box() != r)) return fail("another result the second time");
  c.Outcome(vf::Cat(empty, changed, cs.output().count()));
}
bool DefaultStop(const Box::IntervalVector& o, const Box::IntervalVector& n) {
  for (int i = 0; i < o.size(); ++i) {
    const double a = n[i].diam(), b = o[i].diam();
    if (a == inf || o[i].is_degenerated()) continue;
    if (1 - a / b >= 0.01) return false;
  }
  return true;
}
bool AlwaysStop(const Box::IntervalVector&, const Box::IntervalVector&) { return true; }
}  // namespace

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  const Vars v;
  const Variable &x = v.x, &y = v.y, &n = v.n;
  uni::VV().Add(x); uni::VV().Add(y); uni::VV().Add(n);
  Config cfg, mt;
  mt.mutable_number_of_jobs().set_from_command_line(2);
  std::vector<BX> boxes;
  for (size_t i = 0; i < kBoxR.size(); ++i)
    for (size_t j = 0; j < kBoxR.size(); ++j) boxes.push_back(MkBox(v, i, j, (i + j) % kBoxN.size(), (i + 2 * j) % 3 == 0));
  // ---- single constraints ----
  const auto ts = std::make_shared<std::vector<T>>(terms::Build(x, y, th ? 1 : 0));
  const std::vector<Expression> rhs{0.0, 1.0, -0.5, y, n};
  const size_t base = terms::Build(x, y, 0).size();
  const int chunk = 8;
  d.Add("primitive", (ts->size() + chunk - 1) / chunk, [=](int64_t u, vf::Ctx& c) {
    for (size_t k = u * chunk; k < std::min(ts->size(), static_cast<size_t>(u + 1) * chunk); ++k) {
      const bool small = k < base;
      for (size_t ri = 0; ri < (small ? rhs.size() : 1); ++ri)
        for (int ro = 0; ro < 12; ++ro) {
          if (!small && ro != 0 && ro != 4 && ro != 8) continue;
          Formula f = uni::ApplyRel(uni::RelOps()[ro % 6], (*ts)[k].e, rhs[small ? ri : k % 3]);
          if (ro >= 6) f = !f;
          if (is_true(f) || is_false(f) || f.GetFreeVariables().empty()) continue;
          if (!is_relational(f) && !(is_negation(f) && is_relational(get_operand(f)))) continue;
          c.Note(f.to_string());
          const Atom a = MkAtom(f);
          c.State(f.to_string());
          Spec s;
          s.sat = [&](int p) { return a.t[p] == ref::Tri::T; };
          s.parts = {&a};
          s.primitive = true;
          for (int kind = 0; kind < 4; ++kind) {
            if (!small && kind) break;
            // the operator is built over one box and applied to others
            for (int order = 0; order < 2; ++order) {
              const BX whole = MkBox(v, 0, 0, 0, order);
              const Config& cf = kind & 1 ? mt : cfg;
              const Contractor ctc = kind < 2 ? make_contractor_ibex_fwdbwd(f, whole.b, cf) : make_contractor_ibex_polytope({f}, whole.b, cf);
              if (!is_id(ctc))
                for (const Variable& w : f.GetFreeVariables())
                  if (!ctc.input()[whole.b.index(w)]) c.Fail(f.to_string(), vf::Cat("the operator of ", f, " does not list ", w, " as an input"));
              for (size_t q = 0; q < boxes.size(); ++q) {
                if (boxes[q].b.index(x) != whole.b.index(x)) continue;
                if (!th && (kind || ri || !small) && (q + k + ro) % 3) continue;
                static const char* nm[] = {"forward-backward ", "threaded forward-backward ", "polytope ", "threaded polytope "};
                Check(c, nm[kind] + f.to_string(), ctc, s, boxes[q], v, -1);
              }
            }
          }
        }
      if (k == u * chunk) c.Sample(vf::Cat("all relations of ", (*ts)[k].e));
    }
  });
  // ---- compositions ----
  auto pool = std::make_shared<std::vector<Atom>>();
  for (const Formula& f : std::vector<Formula>{
           x >= 0.5, x == y, x + y <= 1, x * y == 1, x * x + y * y <= 2, y == x * x, n == 2 * x, n >= x + 0.5,
           n * y <= 1, !(x <= n), x != y, exp(x) <= y, sin(x) == y, abs(x) >= 1, 2 * n == 1, sqrt(x) >= y, x > 2, y <= -2,
           max(x, y) <= 0, x == 1.5, n * n >= 4, x - y >= 3})
    pool->push_back(MkAtom(f));
  const int P = pool->size();
  std::vector<BX> cb;
  for (int i : {0, 1, 2, 5, 6})
    for (int j : {0, 2, 3, 7})
      for (int l = 0; l < static_cast<int>(kBoxN.size()); ++l) {
        if (!th && (i + j + l) % 2) continue;
        cb.push_back(MkBox(v, i, j, l, l & 1));
      }
  d.Add("compositions", P * P * (th ? P : 4), [=](int64_t u, vf::Ctx& c) {
    const int third = th ? P : 4;
    const Atom &A = (*pool)[u / third / P], &B = (*pool)[u / third % P], &C = (*pool)[th ? u % third : (u % third * 5 + u / third) % P];
    c.Note(vf::Cat(A.f, ", ", B.f, ", ", C.f));
    c.State(vf::Cat(A.f, "|", B.f, "|", C.f));
    auto T = [](const Atom& a, int p) { return a.t[p] == ref::Tri::T; };
    struct Item { std::string name; std::function<Contractor(const Box&)> mk; Spec s; bool wl; };
    std::vector<Item> items;
    auto add = [&](const std::string& nm, std::function<Contractor(const Box&)> mk, std::function<bool(int)> sat, std::vector<const Atom*> parts, bool explain, bool wl = false) {
      Item it{vf::Cat(nm, " of ", A.f, "; ", B.f, "; ", C.f), mk, {}, wl};
      it.s.sat = sat; it.s.parts = parts; it.s.explain = explain;
      items.push_back(it);
    };
    auto fb = [&](const Atom& a, const Box& b) { return make_contractor_ibex_fwdbwd(a.f, b, cfg); };
    auto in = [&](const Box& b) { return make_contractor_integer(b, cfg); };
    auto po = [&](std::vector<Formula> f, const Box& b) { return make_contractor_ibex_polytope(f, b, cfg); };
    auto and3 = [&](int p) { return T(A, p) && T(B, p) && T(C, p); };
    auto and2 = [&](int p) { return T(A, p) && T(B, p); };
    auto or2 = [&](int p) { return T(A, p) || T(B, p); };
    const std::vector<const Atom*> abc{&A, &B, &C}, ab{&A, &B};
    for (int t = 0; t < 2; ++t) {
      const TerminationCondition stop = t ? AlwaysStop : DefaultStop;
      const std::string sfx = t ? " (one round)" : "";
      if (t) {
        add("seq", [&, stop](const Box& b) { return make_contractor_seq({in(b), fb(A, b), fb(B, b), in(b), fb(C, b)}, cfg); }, and3, abc, true);
        add("integer, seq", [&](const Box& b) { return make_contractor_seq({fb(A, b), make_contractor_seq({in(b), fb(B, b)}, cfg), make_contractor_id(cfg)}, cfg); }, and2, ab, true);
        add("join", [&](const Box& b) { return make_contractor_join({fb(A, b), fb(B, b)}, cfg); }, or2, ab, false);
        add("join of joins", [&](const Box& b) { return make_contractor_join({make_contractor_join({fb(A, b), fb(B, b)}, cfg), make_contractor_seq({fb(C, b), in(b)}, cfg)}, cfg); }, [&](int p) { return or2(p) || T(C, p); }, abc, false);
        add("polytope", [&](const Box& b) { return po({A.f, B.f, C.f}, b); }, and3, abc, true);
      }
      add("fixpoint" + sfx, [&, stop](const Box& b) { return make_contractor_fixpoint(stop, {fb(A, b), fb(B, b), fb(C, b), in(b)}, cfg); }, and3, abc, true);
      add("worklist" + sfx, [&, stop](const Box& b) { return make_contractor_worklist_fixpoint(stop, {fb(A, b), fb(B, b), fb(C, b), in(b)}, cfg); }, and3, abc, true, true);
      add("worklist with polytope" + sfx, [&, stop](const Box& b) { return make_contractor_worklist_fixpoint(stop, {fb(A, b), in(b), po({A.f, B.f, C.f}, b)}, cfg); }, and3, abc, true, true);
      add("fixpoint of join" + sfx, [&, stop](const Box& b) { return make_contractor_fixpoint(stop, {make_contractor_join({fb(A, b), fb(B, b)}, cfg), fb(C, b), in(b)}, cfg); }, [&](int p) { return or2(p) && T(C, p); }, abc, false);
      add("worklist of join" + sfx, [&, stop](const Box& b) { return make_contractor_worklist_fixpoint(stop, {fb(C, b), make_contractor_join({fb(A, b), fb(B, b)}, cfg), in(b)}, cfg); }, [&](int p) { return or2(p) && T(C, p); }, abc, false, true);
      add("join of fixpoints" + sfx, [&, stop](const Box& b) { return make_contractor_join({make_contractor_fixpoint(stop, {fb(A, b), in(b)}, cfg), make_contractor_worklist_fixpoint(stop, {fb(B, b), fb(C, b)}, cfg)}, cfg); }, [&](int p) { return T(A, p) || (T(B, p) && T(C, p)); }, abc, false);
    }
    for (int order = 0; order < 2; ++order) {
      const BX whole = MkBox(v, 0, 0, 0, order);
      for (const Item& it : items) {
        const Contractor ctc = it.mk(whole.b);
        for (size_t q = 0; q < cb.size(); ++q) {
          if (cb[q].b.index(x) != whole.b.index(x)) continue;
          for (int bp = -1; bp < (it.wl ? 3 : 0); ++bp) Check(c, it.name, ctc, it.s, cb[q], v, bp);
        }
      }
    }
    c.Sample(vf::Cat("compositions of ", A.f, "; ", B.f, "; ", C.f));
  });
  // ---- operators generated from a formula ----
  struct GF { Formula f; ref::NP n; };
  auto gfs = std::make_shared<std::vector<GF>>();
  {
    std::vector<Formula> l1;
    const int PG = th ? P : 14;
    for (int i = 0; i < PG; ++i) l1.push_back((*pool)[i].f);
    std::set<std::string> seen;
    auto addf = [&](const Formula& f) {
      if (is_true(f) || is_false(f) || !seen.insert(f.to_string()).second) return;
      gfs->push_back({f, uni::LiftF(f)});
    };
    for (auto& f : l1) { addf(f); addf(!f); }
    for (auto& f : l1)
      for (auto& g : l1) {
        addf(f && g); addf(f || g); addf(!(f && g)); addf(!(f || g)); addf(f && !g); addf(f || !g);
        for (int k = 0; k < (th ? PG : 4); ++k) {
          const Formula& h = l1[th ? k : (k * 3 + 1) % PG];
          addf((f || g) && h); addf((f && g) || h); addf(!((f || !g) && h)); addf(f && !(g && h)); addf(f || g || h); addf(f && g && h);
        }
      }
  }
  const int gchunk = 40;
  // a number that is only known to lie in an enclosure: a point that satisfies
  // the constraint for some number of it stays
  const std::vector<double> rl{-3, -1, -0.1, 0, 0.1, 0.5, 1, 2, 1e16};
  d.Add("enclosed constants", rl.size(), [=](int64_t u, vf::Ctx& c) {
    const double lo = rl[u], hi = std::nextafter(lo, inf);
    const Variable x{"x"}, y{"y"};
    for (int rep = 0; rep < 2; ++rep) {
      const Expression k = dreal::drake::symbolic::real_constant(lo, hi, rep == 0);
      // holds for some number of the enclosure at y = v, x = 0
      struct A { Formula f; std::function<bool(double)> h; };
      auto some = [=](std::function<bool(double, double)> g) { return [=](double v) { return g(v, lo) || g(v, hi); }; };
      std::vector<A> as;
      for (int form = 0; form < 6; ++form) {
        const Expression l = form == 0 ? Expression(y) : form == 1 ? x + y : form == 2 ? y - x * y : form == 3 ? y + k * x : form == 4 ? 2 * y : -y, r = form == 4 ? 2 * k : form == 5 ? -k : k;
        const double sg = form == 5 ? -1 : 1;
        as.push_back({l == r, some([](double v, double q) { return v == q; })});
        as.push_back({l <= r, some([sg](double v, double q) { return sg * v <= sg * q; })});
        as.push_back({l >= r, some([sg](double v, double q) { return sg * v >= sg * q; })});
        as.push_back({l < r, some([sg](double v, double q) { return sg * v < sg * q; })});
        as.push_back({l > r, some([sg](double v, double q) { return sg * v > sg * q; })});
        as.push_back({!(l > r), some([sg](double v, double q) { return sg * v <= sg * q; })});
        as.push_back({!(l < r), some([sg](double v, double q) { return sg * v >= sg * q; })});
      }
      const double before = std::nextafter(lo, -inf), after = std::nextafter(hi, inf);
      for (size_t i = 0; i < as.size(); ++i)
        for (double a : {-1e17, before, lo, hi}) for (double b : {lo, hi, after, 1e17}) for (int kind = 0; kind < 4; ++kind) {
          if (!(a <= b) || !is_relational(is_negation(as[i].f) ? get_operand(as[i].f) : as[i].f)) continue;
          Box box; box.Add(x, 0, 0); box.Add(y, a, b);
          Config cf; cf.mutable_use_polytope() = kind >= 2;
          ContractorStatus cs{box};
          const Formula f = Nnfizer{}.Convert(as[i].f, true);
          if (!is_relational(f)) continue;
          const std::string id = vf::Cat(as[i].f, " with [", lo, ", ", hi, "] on y in [", a, ", ", b, "], ", kind == 0 ? "fwdbwd" : kind == 1 ? "fixpoint" : kind == 2 ? "polytope" : "generated");
          c.Note(id); c.State(id); ++c.transitions; ++c.traces;
          const Contractor ct = kind == 0 ? make_contractor_ibex_fwdbwd(f, box, cf) : kind == 1 ? make_contractor_worklist_fixpoint([](const Box::IntervalVector& p, const Box::IntervalVector& q) { return p == q; }, {make_contractor_ibex_fwdbwd(f, box, cf), make_contractor_integer(box, cf)}, cf)
                                : kind == 2 ? make_contractor_ibex_polytope({f}, box, cf) : GenericContractorGenerator{}.Generate(as[i].f, box, cf);
          ct.Prune(&cs);
          for (double v : {before, lo, hi, after}) {
            if (v < a || v > b) continue;
            ++c.evals;
            const bool in = !cs.box().empty() && cs.box()[y].contains(v) && cs.box()[x].contains(0);
            if (as[i].h(v) && !in) c.Fail(vf::Cat("enclosed ", id), vf::Cat(id, ": loses y = ", v));
            c.Outcome(vf::Cat(in, as[i].h(v)));
          }
        }
      ++c.nontrivial;
    }
  });
  d.Add("generated", (gfs->size() + gchunk - 1) / gchunk, [=](int64_t u, vf::Ctx& c) {
    for (size_t k = u * gchunk; k < std::min(gfs->size(), static_cast<size_t>(u + 1) * gchunk); ++k) {
      const GF& g = (*gfs)[k];
      c.Note(g.f.to_string());
      c.State(g.f.to_string());
      const Tab t = Table(g.n, VarExp(g.n));
      Spec s;
      s.sat = [&](int p) { return t[p] == ref::Tri::T; };
      s.explain = false;
      for (int m = 0; m < 2; ++m)
        for (int order = 0; order < 2; ++order) {
          const BX whole = MkBox(v, 0, 0, 0, order);
          Config cf;
          if (m) cf.mutable_use_polytope().set_from_command_line(true);
          const Contractor ctc = GenericContractorGenerator{}.Generate(g.f, whole.b, cf);
          for (size_t q = 0; q < cb.size(); ++q) {
            if (cb[q].b.index(x) != whole.b.index(x) || (!th && (q + k) % 4)) continue;
            Check(c, vf::Cat(m ? "generated, polytope, " : "generated, ", g.f), ctc, s, cb[q], v, -1);
          }
        }
      if (k == u * gchunk) c.Sample(g.f.to_string());
    }
  });
  d.rule = "the box after pruning lies in the box before, contains every grid solution of the constraint(s) inside it, is the same on a second run, and an emptied box is explained by cited constraints that no grid point in the box satisfies together; a primitive operator reports every dimension it changes";
  d.bounds = {"9 enclosed constants, both representatives, in 42 constraints on 16 ranges with 4 operators", vf::Cat(ts->size(), " terms x relations x polarities x right-hand sides x 4 kinds of operator x ", boxes.size(), " boxes"),
              vf::Cat(P, "^2 x ", th ? P : 4, " constraint triples x 16 compositions x ", cb.size(), " boxes x branching points"),
              vf::Cat(gfs->size(), " formulas of depth 2 with and without polytope pruning"),
              vf::Cat(NPT, " grid points with integer n")};
  return d.Run();
}
