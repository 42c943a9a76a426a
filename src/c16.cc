// C16: strengthening implies the formula, which implies its weakening.
#include "logic.h"
using namespace lg;  // NOLINT

static World w;
static const double kTiny = 1.0 / 1048576;
static const double kDeltas[] = {0.125, 1.0, kTiny};
// Delta-relaxed truth: every comparison of f (in its polarity; not the ones
// inside the condition of a conditional term) may be violated by delta.
static ref::Tri Relaxed(const NP& n, ref::Env& e, double delta, bool pos = true) {
  using ref::Tri;
  switch (n->op) {
    case Op::kNot: return Relaxed(n->k[0], e, delta, !pos);
    case Op::kImp: { const Tri a = Relaxed(n->k[0], e, delta, !pos), b = Relaxed(n->k[1], e, delta, pos); return pos ? ref::Or(a, b) : ref::And(a, b); }
    case Op::kIff: {
      auto imp = [&](const NP& a, const NP& b) { const Tri p = Relaxed(a, e, delta, !pos), q = Relaxed(b, e, delta, pos); return pos ? ref::Or(p, q) : ref::And(p, q); };
      const Tri a = imp(n->k[0], n->k[1]), b = imp(n->k[1], n->k[0]);
      return pos ? ref::And(a, b) : ref::Or(a, b);
    }
    case Op::kAnd:
    case Op::kOr: {
      const bool conj = (n->op == Op::kAnd) == pos;
      Tri t = conj ? Tri::T : Tri::F;
      for (auto& k : n->k) { const Tri s = Relaxed(k, e, delta, pos); t = conj ? ref::And(t, s) : ref::Or(t, s); }
      return t;
    }
    default: break;
  }
  if (!IsRel(n->op)) { const Tri t = ref::EvalF(n, e); return pos ? t : ref::Not(t); }
  const ref::FV a = ref::EvalE(n->k[0], e), b = ref::EvalE(n->k[1], e);
  if (a.s == ref::St::Undef || b.s == ref::St::Undef) return Tri::X;
  if (!a.exact() || !b.exact()) return Tri::U;
  const double diff = a.lo - b.lo;
  auto Bo = [](bool t) { return t ? Tri::T : Tri::F; };
  Op o = n->op;
  if (!pos) o = o == Op::kEq ? Op::kNe : o == Op::kNe ? Op::kEq : o == Op::kLt ? Op::kGe : o == Op::kLe ? Op::kGt : o == Op::kGt ? Op::kLe : Op::kLt;
  switch (o) {
    case Op::kEq: return Bo(std::fabs(diff) <= std::max(delta, 0.0));
    case Op::kNe: return Bo(std::fabs(diff) >= -delta);
    case Op::kLt: case Op::kLe: return Bo(diff <= delta);
    default: return Bo(diff >= -delta);
  }
}

static void Check(const FS& s, vf::Ctx& c) {
  c.StateHash(vf::HashStr(ref::Str(LiftF(s.f))));
  const std::string before = s.f.to_string();
  for (double delta : kDeltas) {
    const std::string id = vf::Cat(ref::Str(s.n), " by ", delta);
    c.Note(id);
    c.transitions += 2;
    const Formula st = dreal::DeltaStrengthen(s.f, delta), wk = dreal::DeltaWeaken(s.f, delta);
    if (s.f.to_string() != before) c.Fail("mutated " + id, id + " changed its argument");
    const NP lf = LiftF(s.f), ls = LiftF(st), lw = LiftF(wk);
    for (auto* l : {&ls, &lw})
      for (int v : FreeOf(*l)) if (v >= w.n) c.Fail("newvar " + id, id + " introduces a variable");
    std::string tab;
    for (size_t i = 0; i < w.grid.size(); ++i) {
      const int f = TruthRef(s.n, w.grid[i]);
      if (f < 0) continue;
      auto ev = [&](const Formula& g) { try { return g.Evaluate(w.env[i]) ? 1 : 0; } catch (const std::exception&) { return -2; } };
      const int a = ev(st), b = ev(wk);
      // exact boundaries only where no rounding is involved: cross-check
      // with the reference on the lifted forms
      const int ra = TruthRef(ls, w.grid[i]), rb = TruthRef(lw, w.grid[i]);
      ++c.evals;
      if (a == -2) c.Fail("throws " + id, vf::Cat("strengthening ", id, " gives ", st, " which cannot be evaluated at ", EnvStr(w.grid[i], w.n)));
      if (b == -2) c.Fail("throws " + id, vf::Cat("weakening ", id, " gives ", wk, " which cannot be evaluated at ", EnvStr(w.grid[i], w.n)));
      if (a == 1 && ra == 1 && f == 0) { c.Fail("strengthen " + id, vf::Cat("strengthening ", id, " gives ", st, ", true at ", EnvStr(w.grid[i], w.n), " where the formula is false")); break; }
      if (b == 0 && rb == 0 && f == 1) { c.Fail("weaken " + id, vf::Cat("weakening ", id, " gives ", wk, ", false at ", EnvStr(w.grid[i], w.n), " where the formula is true")); break; }
      ref::Env e = w.grid[i];
      if (b == 1 && rb == 1 && Relaxed(s.n, e, delta) == ref::Tri::F) { c.Fail("toofar " + id, vf::Cat("weakening ", id, " gives ", wk, ", true at ", EnvStr(w.grid[i], w.n), " where a comparison is violated by more")); break; }
      if (a == 1 && ra == 1 && Relaxed(lf, e, -0.999 * delta) == ref::Tri::F) { c.Fail("margin " + id, vf::Cat("strengthening ", id, " gives ", st, ", true at ", EnvStr(w.grid[i], w.n), " where a comparison holds without a margin of it")); break; }
      tab += static_cast<char>('0' + f + 2 * (a == 1) + 4 * (b == 1));
    }
    c.Outcome(tab);
    if (ref::Str(ls) != ref::Str(LiftF(s.f)) || ref::Str(lw) != ref::Str(LiftF(s.f))) ++c.nontrivial;
    ++c.traces;
    c.Sample(vf::Cat(id, " -> ", st, " | ", wk));
  }
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b"}) VV().New(v, Variable::Type::BOOLEAN);
  std::vector<double> gx, gy{0, 1, -0.125};
  {
    std::set<double> s;
    for (double base : {0.0, 1.0, -1.0})
      for (double dl : {0.0, kTiny, kTiny / 2, 0.125, 0.0625, 0.25, 1.0, 0.5, 2.0})
        for (double sg : {1.0, -1.0}) { s.insert(base + sg * dl); s.insert(std::nextafter(base + sg * dl, 9.0)); s.insert(std::nextafter(base + sg * dl, -9.0)); }
    gx.assign(s.begin(), s.end());
  }
  w.Set({{0, gx}, {1, gy}, {2, {0, 1}}, {3, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), b1 = ref::V(2, true), b2 = ref::V(3, true);
  auto C = [](double v) { return ref::C(v); };
  auto Ite = [](NP a, NP b, NP c) { return ref::Mk(Op::kIte, {a, b, c}); };
  std::vector<NP> T{x, y, C(0), C(1), C(-1), B(Op::kAdd, x, y), B(Op::kSub, y, x), B(Op::kAdd, x, C(1)), B(Op::kMul, C(2), x), B(Op::kMul, C(-1), x), B(Op::kMul, x, y), B(Op::kPow, x, C(2)), ref::Mk(Op::kAbs, {x}), B(Op::kMin, x, y), B(Op::kMax, x, C(0)),
                    Ite(B(Op::kGt, x, C(0)), C(1), C(-1)), Ite(B(Op::kGt, x, C(0)), C(-1), C(1)), Ite(B(Op::kLe, x, y), x, C(1)), Ite(B(Op::kNe, x, C(0)), C(1), C(2)), Ite(B(Op::kEq, x, C(0)), C(1), C(2)), Ite(b1, x, y),
                    B(Op::kAdd, x, Ite(N(B(Op::kLt, x, C(1))), y, C(0))), ref::RC(0.1, std::nextafter(0.1, 1), true)};
  // every kind of term node above an enclosed conditional
  for (Op o : UnaryOps()) T.push_back(ref::Mk(o, {B(Op::kMul, C(0.5), x)}));
  T.push_back(B(Op::kDiv, x, C(2))); T.push_back(B(Op::kDiv, y, B(Op::kAdd, x, C(4)))); T.push_back(B(Op::kPow, B(Op::kAdd, x, C(4)), y)); T.push_back(B(Op::kAtan2, y, B(Op::kAdd, x, C(4))));
  std::vector<FS> L;
  for (auto& a : T) for (auto& b : std::vector<NP>{x, y, C(0), C(1), C(-1), B(Op::kAdd, x, y), Ite(b1, C(0), y)}) for (Op o : RelOps()) { L.push_back(Fs(B(o, a, b))); L.push_back(Fs(B(o, b, a))); }
  std::vector<FS> A{Fs(b1)};
  for (Op o : RelOps()) { A.push_back(Fs(B(o, x, C(0)))); A.push_back(Fs(B(o, x, y))); }
  A.push_back(Fs(B(Op::kLe, B(Op::kMul, C(2), x), y)));
  A.push_back(Fs(B(Op::kGt, C(1), x)));
  std::vector<FS> S{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(B(Op::kEq, x, C(0))), Fs(B(Op::kGe, x, C(1)))};
  FSet A2 = Grow(A, A, {Op::kAnd, Op::kOr, Op::kIff});
  FSet S2 = Grow(S, S, {Op::kAnd, Op::kOr, Op::kIff});
  d.rule = "case = strengthening and weakening a formula by one delta; at every grid point (values on, one representable step beside, and half and twice delta around every boundary): strengthened implies original implies weakened, and a weakened-true point violates no comparison by more than delta; non-trivial = the formula was changed";
  d.bounds = {vf::Cat(T.size(), " terms compared with 7 terms, 6 operators, both orders: ", L.size(), " comparisons, also negated"), vf::Cat(A.size(), " atoms: depth 2 complete, depth 3 with any atom (", A2.v.size(), ")"),
              vf::Cat(S.size(), " atoms: depth 3 complete (", S2.v.size(), "^2 x 2)"), vf::Cat("deltas 0.125, 1, 2^-20; grid ", w.grid.size())};
  d.Add("comparisons", (L.size() + 9) / 10, [&](int64_t u, vf::Ctx& c) {
    for (size_t i = u * 10; i < L.size() && i < size_t(u) * 10 + 10; ++i) { Check(L[i], c); Check(FS{!L[i].f, N(L[i].n)}, c); }
  });
  d.Add("quantified", S2.v.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& f : S2.v)
      for (Op o : {Op::kAnd, Op::kOr}) {
        const NP n = B(o, S2.v[u].n, ref::All({1}, f.n));
        const Formula q = BuildF(n);
        if (!Quantified(LiftF(q))) continue;  // folded away
        for (bool s : {false, true}) {
          ++c.transitions;
          ++c.traces;
          ++c.nontrivial;
          try {
            const Formula g = s ? dreal::DeltaStrengthen(q, 0.5) : dreal::DeltaWeaken(q, 0.5);
            c.Fail("forall " + ref::Str(n), vf::Cat(ref::Str(n), " is not refused: ", g));
          } catch (const std::runtime_error&) {
          }
        }
      }
  });
  Pairs(d, "depth3", S2.v, d.thorough ? S2.v : S2.v, {Op::kAnd, Op::kOr}, Check);
  Pairs(d, "atoms", A2.v, A, d.thorough ? std::vector<Op>{Op::kAnd, Op::kOr, Op::kIff} : std::vector<Op>{Op::kAnd}, Check);
  static const std::vector<FS> CL{Fs(b1), Fs(B(Op::kLe, x, y)), Fs(B(Op::kGt, C(1), x))};
  const int csteps = d.thorough ? 4 : 3;
  d.bounds.push_back(vf::Cat("chains: every alternation of and, or and negation of depth ", csteps + 1, " with ", CL.size(), " literals"));
  Chains(d, "chains", CL, csteps, Check);
  return d.Run();
}
