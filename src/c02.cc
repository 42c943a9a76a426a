// C02: expression equality, order and hash agree.
#include "ordcheck.h"
using namespace uni;  // NOLINT
namespace sym = dreal::drake::symbolic;

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  VV().New("x", Variable::Type::CONTINUOUS);
  VV().New("y", Variable::Type::CONTINUOUS);
  VV().New("x", Variable::Type::INTEGER);  // same name, other variable
  VV().New("b", Variable::Type::BOOLEAN);
  const NP x = ref::V(0), y = ref::V(1), x2 = ref::V(2), b = ref::V(3, true);
  const double t = 0.1, tn = std::nextafter(t, 1), tp = std::nextafter(t, 0);
  std::vector<NP> A{x, y, x2};
  for (double k : {0., 1., -1., 2., 0.5, 0.1, 1e300, -1e-300}) A.push_back(ref::C(k));
  const std::vector<NP> rcs{ref::RC(t, tn, true), ref::RC(t, tn, false), ref::RC(tp, t, true), ref::RC(tp, t, false), 
                            ref::RC(-tn, -t, true), ref::RC(0.5, std::nextafter(0.5, 1), true)};
  for (auto& r : rcs) A.push_back(r);
  std::vector<NP> uni = A;
  auto un = [&](const std::vector<NP>& s) { for (auto& a : s) for (Op o : UnaryOps()) uni.push_back(ref::Mk(o, {a})); };
  auto bin = [&](const std::vector<NP>& s, const std::vector<NP>& t2, const std::vector<Op>& ops) {
    for (auto& a : s) for (auto& c : t2) for (Op o : ops) uni.push_back(ref::Mk(o, {a, c}));
  };
  const std::vector<NP> S{x, y, x2, ref::C(2), rcs[0], rcs[1]};
  un({x, y, x2, rcs[0], rcs[1], rcs[2]});
  bin(S, S, BinaryOps());
  // nested sums/products/powers differing in one coefficient, exponent, constant or term
  std::vector<NP> terms{x, y, ref::Mk(Op::kMul, {x, y}), ref::Mk(Op::kPow, {x, ref::C(2)}), ref::Mk(Op::kSin, {x}), ref::Mk(Op::kAdd, {x, y})};
  for (auto& p : terms)
    for (auto& q : terms)
      for (double c1 : {1., 2., -1.})
        for (double c0 : {0., 1., -2.}) {
          uni.push_back(ref::Mk(Op::kAdd, {ref::C(c0), ref::Mk(Op::kAdd, {ref::Mk(Op::kMul, {ref::C(c1), p}), q})}));
          uni.push_back(ref::Mk(Op::kMul, {ref::C(c0 == 0 ? 3 : c0), ref::Mk(Op::kMul, {ref::Mk(Op::kPow, {p, ref::C(c1)}), q})}));
        }
  for (auto& p : terms) uni.push_back(ref::Mk(Op::kMul, {x2, ref::Mk(Op::kPow, {p, y})}));
  for (auto& p : terms) uni.push_back(ref::Mk(Op::kMul, {x2, ref::Mk(Op::kPow, {p, rcs[0]})}));
  // conditionals
  for (Op o : RelOps())
    for (auto& p : {x, y})
      for (auto& q : {x, ref::C(1)})
        for (auto& r : {y, x2}) {
          uni.push_back(ref::Mk(Op::kIte, {ref::Mk(o, {p, ref::C(2)}), q, r}));
          uni.push_back(ref::Mk(Op::kIte, {ref::Mk(o, {p, r}), q, p}));
        }
  uni.push_back(ref::Mk(Op::kIte, {b, x, y}));
  uni.push_back(ref::Mk(Op::kIte, {ref::Mk(Op::kNot, {b}), x, y}));
  uni.push_back(ref::Mk(Op::kIte, {b, y, x}));
  uni.push_back(ref::Mk(Op::kIte, {b, y, rcs[0]}));
  uni.push_back(ref::Mk(Op::kIte, {b, y, rcs[1]}));
  if (d.thorough) {
    const std::vector<NP> base = uni;
    for (size_t i = 0; i < base.size(); i += 2) {
      uni.push_back(ref::Mk(Op::kSin, {base[i]}));
      uni.push_back(ref::Mk(Op::kAdd, {base[i], x}));
      uni.push_back(ref::Mk(Op::kMul, {base[i], x}));
      uni.push_back(ref::Mk(Op::kMin, {y, base[i]}));
      uni.push_back(ref::Mk(Op::kPow, {base[i], y}));
    }
  }
  auto norm = [](std::string k) { return k; };
  OrdU<Expression> u;
  for (auto& n : uni) {
    try {
      Expression e1 = BuildE(n), e2 = BuildE(n);
      u.key.push_back(norm(ref::Str(LiftE(e1))));
      u.text.push_back(ref::Str(n));
      u.a.push_back(e1);
      u.b.push_back(e2);
    } catch (const std::domain_error&) {
    } catch (const std::runtime_error&) {
    }
  }
  // kinds with extra identity that the reference tree does not carry
  for (const char* name : {"f", "g", "h"})
    for (int m = 0; m < 8; ++m) {
      Variables vs;
      for (int i = 0; i < 3; ++i) if (m & (1 << i)) vs.insert(VV().v[i]);
      u.a.push_back(sym::uninterpreted_function(name, vs));
      u.b.push_back(sym::uninterpreted_function(name, vs));
      u.key.push_back(vf::Cat("uf ", name, m));
      u.text.push_back(u.key.back());
    }
  d.rule = "case = an ordered pair of terms from the enumerated universe (each term built twice independently); equality is judged by the structure read back through accessors; triples are covered by score counting; non-trivial = two different members";
  d.bounds = {vf::Cat(u.a.size(), " terms of every kind, all ordered pairs, two independently built copies")};
  AddOrdStages(d, u, "");

  // sums and products do not depend on order or grouping
  std::vector<NP> T{x, y, x2, ref::C(2), ref::C(-3), ref::Mk(Op::kMul, {ref::C(2), x}), ref::Mk(Op::kMul, {ref::C(-0.5), y}), ref::Mk(Op::kPow, {x, ref::C(2)}),
                    ref::Mk(Op::kMul, {x, y}), ref::Mk(Op::kSin, {x}), ref::Mk(Op::kAdd, {x, ref::C(1)}), ref::Mk(Op::kPow, {y, ref::C(-1)}), ref::Mk(Op::kPow, {x, y})};
  const int64_t nt = T.size();
  d.Add("regroup", nt, [&, nt](int64_t i, vf::Ctx& c) {
    for (Op o : {Op::kAdd, Op::kMul})
      for (int64_t j = i; j < nt; ++j)
        for (int64_t k = j; k < nt; ++k)
          for (int64_t l = k; l <= nt; ++l) {
            if (l < nt && !d.thorough && l > k + 3) continue;
            std::vector<Expression> e{BuildE(T[i]), BuildE(T[j]), BuildE(T[k])};
            if (l < nt) e.push_back(BuildE(T[l]));
            std::vector<int> p;
            for (size_t q = 0; q < e.size(); ++q) p.push_back(q);
            // a constant times a sum may be distributed: sums are not used as factors
            if (o == Op::kMul) {
              bool sum = false;
              for (const auto& q : e) sum = sum || dreal::is_addition(q);
              if (sum) continue;
            }
            const std::string id = vf::Cat(ref::Name(o), " ", ref::Str(T[i]), " ", ref::Str(T[j]), " ", ref::Str(T[k]), l < nt ? " " + ref::Str(T[l]) : "");
            c.Note(id);
            Expression first;
            bool have = false;
            auto chk = [&](const Expression& r) {
              ++c.transitions;
              ++c.evals;
              if (!have) { first = r; have = true; return; }
              if (!first.EqualTo(r) || ref::Str(LiftE(first)) != ref::Str(LiftE(r)))
                c.Fail("regroup " + id, vf::Cat("the same terms give ", first, " or ", r, " depending on order/grouping: ", id));
            };
            do {
              auto A2 = [&](const Expression& a, const Expression& b2) { return Apply(o, {a, b2}); };
              if (e.size() == 3) {
                chk(A2(A2(e[p[0]], e[p[1]]), e[p[2]]));
                chk(A2(e[p[0]], A2(e[p[1]], e[p[2]])));
              } else {
                chk(A2(A2(A2(e[p[0]], e[p[1]]), e[p[2]]), e[p[3]]));
                chk(A2(A2(e[p[0]], e[p[1]]), A2(e[p[2]], e[p[3]])));
                chk(A2(A2(e[p[0]], A2(e[p[1]], e[p[2]])), e[p[3]]));
                chk(A2(e[p[0]], A2(A2(e[p[1]], e[p[2]]), e[p[3]])));
                chk(A2(e[p[0]], A2(e[p[1]], A2(e[p[2]], e[p[3]]))));
              }
              // compound assignment and n-ary helpers
              Expression acc = e[p[0]];
              for (size_t q = 1; q < e.size(); ++q) { if (o == Op::kAdd) acc += e[p[q]]; else acc *= e[p[q]]; }
              chk(acc);
              std::vector<Expression> v;
              for (int q : p) v.push_back(e[q]);
              chk(o == Op::kAdd ? sym::Sum(v) : sym::Prod(v));
            } while (std::next_permutation(p.begin(), p.end()));
            ++c.traces;
            ++c.nontrivial;
            c.State(id);
          }
  });
  return d.Run();
}
