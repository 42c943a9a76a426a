// C08: formula equality, order and hash agree.
#include "ordcheck.h"
using namespace uni;  // NOLINT
namespace sym = dreal::drake::symbolic;

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  VV().New("x", Variable::Type::CONTINUOUS);
  VV().New("x", Variable::Type::CONTINUOUS);
  VV().New("b1", Variable::Type::BOOLEAN);
  VV().New("b2", Variable::Type::BOOLEAN);
  VV().New("b1", Variable::Type::BOOLEAN);
  const NP x = ref::V(0), y = ref::V(1), b1 = ref::V(2, true), b2 = ref::V(3, true), b3 = ref::V(4, true);
  const std::vector<NP> es{x, y, ref::C(0), ref::C(2), ref::Mk(Op::kAdd, {x, y}), ref::Mk(Op::kMul, {x, y}), ref::Mk(Op::kSin, {x}), ref::RC(0.1, std::nextafter(0.1, 1), true),
                           ref::RC(0.1, std::nextafter(0.1, 1), false), ref::Mk(Op::kIte, {b1, x, y})};
  std::vector<NP> rel;
  for (auto& a : es) for (auto& b : es) for (Op o : RelOps()) rel.push_back(ref::Mk(o, {a, b}));
  std::vector<NP> uni{ref::Mk(Op::kTrue), ref::Mk(Op::kFalse), b1, b2, b3};
  for (auto& r : rel) uni.push_back(r);
  for (auto& r : rel) if (uni.size() % 2) uni.push_back(ref::Mk(Op::kNot, {r}));
  std::vector<NP> lit{b1, b2, b3, ref::Mk(Op::kNot, {b1}), ref::Mk(Op::kLt, {x, y}), ref::Mk(Op::kGe, {x, y}), ref::Mk(Op::kNot, {ref::Mk(Op::kLt, {x, y})}), ref::Mk(Op::kEq, {x, ref::C(2)})};
  for (auto& p : lit) uni.push_back(ref::Mk(Op::kNot, {p}));
  std::vector<NP> two;
  for (Op o : {Op::kAnd, Op::kOr})
    for (auto& p : lit)
      for (auto& q : lit) {
        two.push_back(ref::Mk(o, {p, q}));
        for (auto& r : lit) uni.push_back(ref::Mk(o, {p, q, r}));
      }
  for (auto& p : two) { uni.push_back(p); uni.push_back(ref::Mk(Op::kNot, {p})); }
  for (size_t i = 0; i < two.size(); i += 3)
    for (size_t j = 0; j < lit.size(); ++j) { uni.push_back(ref::Mk(Op::kAnd, {two[i], lit[j]})); uni.push_back(ref::Mk(Op::kOr, {two[i], lit[j]})); }
  // quantified formulas: same body, other binders; same binders, other body
  const std::vector<NP> bodies{ref::Mk(Op::kLt, {x, y}), ref::Mk(Op::kLt, {y, x}), ref::Mk(Op::kAnd, {b1, ref::Mk(Op::kLt, {x, y})}), ref::Mk(Op::kOr, {b1, ref::Mk(Op::kGt, {x, ref::C(0)})})};
  for (auto& bd : bodies)
    for (auto& bs : std::vector<std::vector<int>>{{0}, {1}, {0, 1}, {0, 2}, {1, 2}}) {
      const NP q = ref::All(bs, bd);
      uni.push_back(q);
      uni.push_back(ref::Mk(Op::kNot, {q}));
      uni.push_back(ref::Mk(Op::kAnd, {q, b2}));
      uni.push_back(ref::Mk(Op::kOr, {b2, q}));
    }
  OrdU<Formula> u;
  std::set<std::string> dup;
  for (auto& n : uni) {
    Formula f1 = BuildF(n), f2 = BuildF(n);
    const std::string k = ref::Str(LiftF(f1));
    u.key.push_back(k);
    u.text.push_back(ref::Str(n));
    u.a.push_back(f1);
    u.b.push_back(f2);
  }
  d.rule = "case = an ordered pair of formulas from the enumerated universe (each built twice independently); equality judged by the structure read back through accessors; triples covered by score counting; non-trivial = two different members";
  d.bounds = {vf::Cat(u.a.size(), " formulas of every kind, all ordered pairs, two independently built copies")};
  AddOrdStages(d, u, "");
  // operand order, grouping and repetition do not matter
  const int64_t nl = lit.size();
  d.Add("regroup", nl, [&, nl](int64_t i, vf::Ctx& c) {
    for (Op o : {Op::kAnd, Op::kOr})
      for (int64_t j = 0; j < nl; ++j)
        for (int64_t k = j; k < nl; ++k) {
          const Formula f[3]{BuildF(lit[i]), BuildF(lit[j]), BuildF(lit[k])};
          const std::string id = vf::Cat(ref::Name(o), " ", ref::Str(lit[i]), " ", ref::Str(lit[j]), " ", ref::Str(lit[k]));
          c.Note(id);
          int p[3]{0, 1, 2};
          Formula first = Formula::True();
          bool have = false;
          auto chk = [&](const Formula& r) {
            ++c.transitions;
            ++c.evals;
            if (!have) { first = r; have = true; return; }
            if (!first.EqualTo(r) || ref::Str(LiftF(first)) != ref::Str(LiftF(r)) || first.get_hash() != r.get_hash())
              c.Fail("regroup " + id, vf::Cat("the same operands give ", first, " or ", r, " depending on order/grouping: ", id));
          };
          auto op = [&](const Formula& a, const Formula& b) { return o == Op::kAnd ? a && b : a || b; };
          do {
            chk(op(op(f[p[0]], f[p[1]]), f[p[2]]));
            chk(op(f[p[0]], op(f[p[1]], f[p[2]])));
            chk(op(op(op(f[p[0]], f[p[1]]), f[p[2]]), f[p[0]]));
            chk(op(op(f[p[0]], f[p[1]]), op(f[p[1]], f[p[2]])));
            const std::vector<Formula> v{f[p[0]], f[p[1]], f[p[2]], f[p[1]]};
            chk(o == Op::kAnd ? dreal::make_conjunction(v) : dreal::make_disjunction(v));
          } while (std::next_permutation(p, p + 3));
          ++c.traces;
          ++c.nontrivial;
          c.State(id);
        }
  });
  return d.Run();
}
