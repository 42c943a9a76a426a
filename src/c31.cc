// BUILD: full
// C31: the theory solver's rejections are explained by constraints which
// really conflict within the box, its acceptances come with a model.
#include "dreal/solver/config.h"
#include "dreal/solver/theory_solver.h"
#include "problems.h"
using namespace dreal;
using prob::P;
using uni::Op;
namespace {
struct Cfg { std::string name; double delta; bool poly{false}, wl{false}, left{false}; };
const std::vector<Cfg> kC{{"0.1", 0.1}, {"0.001", 0.001}, {"0.1 polytope", 0.1, true}, {"0.1 worklist", 0.1, false, true}, {"0.01 left first", 0.01, false, false, true}, {"0.02 polytope worklist", 0.02, true, true}};
Config Mk(const Cfg& k) {
  Config c;
  c.mutable_precision() = k.delta;
  c.mutable_use_polytope() = k.poly;
  c.mutable_use_worklist_fixpoint() = k.wl;
  c.mutable_stack_left_box_first() = k.left;
  return c;
}
const std::vector<prob::Bounds> kB{{"wide", -2, 3, -2, 3, -1, 3}, {"narrow", 0, 1, -1, 0.5, 0, 2}, {"point", 0.5, 0.5, -1, 1, 1, 1}, {"corner", -1.75, 0.25, 0.25, 2.75, -1, 0}, {"far", 1.5, 3, -2, -0.75, 2, 3}};
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const prob::Vars v;
  static std::vector<P> ls;  // literals without Boolean variables or conditionals
  for (auto& p : prob::Atoms(v)) {
    if (p.ite || uni::FreeOf(p.n).count(3)) continue;
    ls.push_back(p);
    ls.push_back(prob::Mk(!p.f, ref::Mk(Op::kNot, {p.n})));
  }
  static std::vector<prob::Bits> within;
  for (auto& b : kB) within.push_back(prob::Within(b));
  const int NL = ls.size(), NB = kB.size(), NC = kC.size();
  auto box = [](const prob::Bounds& q, int order) {
    Box b;
    if (order) b.Add(v.n, q.nl, q.nu), b.Add(v.y, q.yl, q.yu), b.Add(v.x, q.xl, q.xu);
    else b.Add(v.x, q.xl, q.xu), b.Add(v.y, q.yl, q.yu), b.Add(v.n, q.nl, q.nu);
    return b;
  };
  // one call; whether it accepted
  auto call = [=](vf::Ctx& c, TheorySolver* s, const Cfg& k, const std::vector<int>& is, int b, int order, const std::string& history) {
    std::vector<Formula> fs;
    std::vector<const P*> ps;
    std::string t = vf::Cat(history, "precision ", k.name, ", ", kB[b].name, ":");
    for (int i : is) { fs.push_back(ls[i].f); ps.push_back(&ls[i]); t += vf::Cat(" [", ls[i].f, "]"); }
    c.Note(t);
    const Box in = box(kB[b], order);
    const bool ok = s->CheckSat(in, fs);
    ++c.transitions; ++c.traces; ++c.evals;
    if (ok) {
      ++c.nontrivial;
      // integer and Boolean values are picked later, by the context
      const std::string e = prob::ModelError(s->GetModel(), v, ps, &kB[b], k.delta, false);
      if (!e.empty()) c.Fail(vf::Cat("model", t), vf::Cat(t, ": ", e));
    } else {
      prob::Bits w = within[b];
      std::string es;
      for (const Formula& f : s->GetExplanation()) {
        es += vf::Cat(" [", f, "]");
        const P* p = nullptr;
        for (auto* q : ps) if (q->f.EqualTo(f)) p = q;
        if (!p) { c.Fail(vf::Cat("foreign", t), vf::Cat(t, ": explained by ", f, ", which was not given")); return ok; }
        w = prob::AndB(w, p->t);
      }
      const int q = prob::First(w);
      if (q >= 0) c.Fail(vf::Cat("explanation", t), vf::Cat(t, ": rejected because of", es.empty() ? " nothing" : es, ", which ", prob::Pt(q), " of the box ", prob::BoxStr(in), " satisfies"));
      if (s->GetExplanation().size() < is.size()) ++c.extra["strict subsets"];
    }
    c.Outcome(vf::Cat(ok, t));
    return ok;
  };
  const int T = d.thorough ? NL : 0;
  d.Add("pairs", NL * NL, [=](int64_t u, vf::Ctx& c) {
    const int i = u / NL, j = u % NL;
    for (int b = 0; b < NB; ++b)
      for (int k = 0; k < NC; ++k) {
        const Config cfg = Mk(kC[k]);
      TheorySolver s{cfg};
        std::vector<int> is{i, j};
        if (i == j) is = {i};
        call(c, &s, kC[k], is, b, (b + k) & 1, "");
      }
    c.State(vf::Cat("p", u));
  });
  d.Add("triples", NL * NL, [=](int64_t u, vf::Ctx& c) {
    const int i = u / NL, j = u % NL;
    if (i == j) return;
    for (int m = T ? 0 : j + 1; m < NL; ++m) {
      if (m == i || m == j) continue;
      const int b = (i + j * 2 + m) % NB, k = (i + j + m * 5) % NC;
      const Config cfg = Mk(kC[k]);
      TheorySolver s{cfg};
      call(c, &s, kC[k], {i, j, m}, b, m & 1, "");
    }
    c.State(vf::Cat("t", u));
  });
  // One solver asked again and again: other boxes of the same variables, other
  // selections from the same constraints.
  d.Add("sequences on one solver", NL * NL, [=](int64_t u, vf::Ctx& c) {
    const int i = u / NL, j = u % NL;
    if (i == j) return;
    for (int k = 0; k < NC; ++k) {
      const int m = (i + j + k + 1) % NL;
      const Config cfg = Mk(kC[k]);
      TheorySolver s{cfg};
      std::string h;
      int n = 0;
      for (int b : {0, 1, 3, 0, 4, 2, 1}) {
        std::vector<int> is;
        if (n % 3 == 0) is = {i, j}; else if (n % 3 == 1) is = {j}; else is = {j, i};
        if (n == 4 && m != i && m != j) is.push_back(m);
        call(c, &s, kC[k], is, b, k & 1, h);
        h = vf::Cat("call ", ++n, " on one solver, ");
      }
    }
    c.State(vf::Cat("s", u));
  });
  // The same with the variables of the box in another order from call to call.
  d.Add("sequences over changing boxes", NL * NL, [=](int64_t u, vf::Ctx& c) {
    const int i = u / NL, j = u % NL;
    if (i == j) return;
    for (int k = 0; k < NC; ++k) {
      const Config cfg = Mk(kC[k]);
      TheorySolver s{cfg};
      int n = 0;
      for (int b : {0, 1, 0, 3}) { call(c, &s, kC[k], {i, j}, b, n & 1, n ? "another order of variables, " : ""); ++n; }
    }
  });
  d.rule = "a rejection cites only given constraints, and no grid point of the box satisfies all it cites; an acceptance comes with a box within the given one containing a point which violates no constraint by more than the precision";
  d.bounds = {vf::Cat(NL, " literals over two reals and an integer; ", NB, " boxes; ", NC, " configurations; ", prob::NPT, " grid points; sequences of 7 and 4 calls")};
  return d.Run();
}
