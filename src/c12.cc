// C12: negation normal form keeps meaning and has the promised shape.
#include "dreal/util/nnfizer.h"
#include "logic.h"
using namespace lg;  // NOLINT

static World w;
static bool ShapeOk(const NP& n, bool push) {
  if (n->op == Op::kNot) {
    const Op o = n->k[0]->op;
    if (push) return o == Op::kBool || o == Op::kForall;
    return o == Op::kBool || o == Op::kForall || IsRel(o);
  }
  if (n->op == Op::kAnd || n->op == Op::kOr) {
    for (auto& k : n->k)
      if (!ShapeOk(k, push)) return false;
    return true;
  }
  return IsAtom(n);
}
static void Check(const FS& s, vf::Ctx& c) {
  c.StateHash(vf::HashStr(ref::Str(LiftF(s.f))));
  for (bool push : {false, true}) {
    const std::string id = vf::Cat("NNF(", ref::Str(s.n), ", push=", push, ")");
    c.Note(id);
    ++c.transitions;
    const std::string before = s.f.to_string();
    const Formula g = dreal::Nnfizer{}.Convert(s.f, push);
    if (s.f.to_string() != before) c.Fail("mutated " + id, id + " changed its argument");
    Same(id, s.n, g, w, c);
    const NP l = LiftF(g);
    if (!ShapeOk(l, push)) c.Fail("shape " + id, vf::Cat(id, " gives ", g, " with a negation elsewhere than allowed"));
    const Formula g2 = dreal::Nnfizer{}.Convert(g, push);
    if (ref::Str(LiftF(g2)) != ref::Str(l) || !g2.EqualTo(g)) c.Fail("idem " + id, vf::Cat(id, " gives ", g, ", converted again ", g2));
    const auto want = FreeOf(s.n);
    for (int v : FreeOf(l))
      if (!want.count(v)) c.Fail("newvar " + id, id + " mentions a new variable");
    if (ref::Str(l) != ref::Str(LiftF(s.f))) ++c.nontrivial;
    ++c.traces;
    c.Sample(vf::Cat(id, " -> ", g));
  }
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x", "z"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b", "b3"}) VV().New(v, Variable::Type::BOOLEAN);
  w.Set({{0, {-1, 0.5, 2}}, {1, {-1, 0.5, 2}}, {2, {0}}, {3, {0, 1}}, {4, {0, 1}}, {5, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true), b3 = ref::V(5, true);
  std::vector<FS> A{Fs(ref::Mk(Op::kTrue)), Fs(b1), Fs(b2)};
  for (Op o : RelOps()) A.push_back(Fs(B(o, x, y)));
  A.push_back(Fs(B(Op::kLt, B(Op::kAdd, x, y), ref::C(1))));
  A.push_back(Fs(B(Op::kGt, ref::Mk(Op::kIte, {N(B(Op::kAnd, b1, B(Op::kGt, x, y))), x, y}), ref::C(0))));
  A.push_back(Fs(B(Op::kLe, x, ref::RC(0.1, std::nextafter(0.1, 1), true))));
  A.push_back(Fs(ref::All({2}, B(Op::kLe, x, z))));
  A.push_back(Fs(ref::All({2}, N(B(Op::kOr, b1, B(Op::kLt, z, y))))));
  A.push_back(Fs(N(ref::All({2}, B(Op::kAnd, b1, N(ref::All({0}, B(Op::kEq, x, z))))))));
  const std::vector<Op> ops{Op::kAnd, Op::kOr, Op::kImp, Op::kIff};
  FSet P2 = Grow(A, A, ops);
  std::vector<FS> S{Fs(b1), Fs(b2), Fs(B(Op::kLt, x, y)), Fs(ref::All({2}, B(Op::kLe, x, z)))};
  if (d.thorough) { S.push_back(Fs(B(Op::kNe, x, y))); S.push_back(Fs(b3)); }
  FSet Q2 = Grow(S, S, {Op::kAnd, Op::kOr, Op::kIff});
  FSet QQ = Grow(Q2.v, Q2.v, {Op::kAnd, Op::kOr});
  d.rule = "case = a formula and a conversion mode; truth at every grid assignment (quantifiers over a finite domain), shape, idempotence, free variables and the argument being unchanged are checked; non-trivial = the conversion changed the formula";
  d.bounds = {vf::Cat(A.size(), " atoms incl. all comparisons, conditionals, quantified atoms: depth 2 complete, depth 3 with any atom (", P2.v.size(), " x ", A.size(), " x 4)"),
              vf::Cat(S.size(), " atoms: depth 3 complete (", Q2.v.size(), "^2 x 2), depth 4 with atoms (", QQ.v.size(), " x ", S.size(), " x 3)"), vf::Cat("grid ", w.grid.size())};
  Pairs(d, "atoms", P2.v, A, ops, Check);
  Pairs(d, "depth3", Q2.v, Q2.v, {Op::kAnd, Op::kOr}, Check);
  static std::vector<FS> qs;
  qs = QQ.v;
  Pairs(d, "depth4", qs, S, {Op::kAnd, Op::kOr, Op::kIff}, Check);
  static const std::vector<FS> CL{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(ref::All({2}, B(Op::kLe, x, z)))};
  const int csteps = d.thorough ? 5 : 4;
  d.bounds.push_back(vf::Cat("chains: every alternation of and, or and negation of depth ", csteps + 1, " with ", CL.size(), " literals"));
  Chains(d, "chains", CL, csteps, Check);
  return d.Run();
}
