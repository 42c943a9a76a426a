// C10: variable sets and environments against mathematical sets and maps, over
// every operation history up to a depth.
#include <sstream>
#include "uni.h"
using dreal::Environment;
using dreal::Variable;
using dreal::Variables;
namespace sym = dreal::drake::symbolic;

static std::vector<Variable> g_v;
static const int kV = 4;
using MS = std::set<int>;
struct SState {
  Variables s[2];
  MS m[2];
};
struct SOp {
  std::string name;
  std::function<void(SState*)> real, model;
};
static std::map<MS, size_t> g_hash;  // content -> hash, across histories
static std::map<MS, std::string> g_str;

static std::string MStr(const MS& m) {
  std::string r = "{";
  for (int i : m) r += (r.size() > 1 ? ", " : "") + g_v[i].get_name();
  return r + "}";
}
static bool Includes(const MS& a, const MS& b) {  // b subset of a
  for (int x : b) if (!a.count(x)) return false;
  return true;
}
static void CheckSet(const Variables& s, const MS& m, const std::string& id, vf::Ctx& c) {
  ++c.evals;
  auto bad = [&](const std::string& w) { c.Fail(w + " " + id, vf::Cat("after ", id, ": ", w, "; set prints ", s, ", should hold ", MStr(m))); };
  if (s.size() != m.size()) bad("size");
  if (s.empty() != m.empty()) bad("empty");
  std::vector<size_t> it, want, rit;
  for (const Variable& v : s) it.push_back(v.get_id());
  for (int i : m) want.push_back(g_v[i].get_id());
  if (it != want) bad("iteration");
  for (auto p = s.crbegin(); p != s.crend(); ++p) rit.insert(rit.begin(), p->get_id());
  if (rit != want) bad("reverse iteration");
  for (int i = 0; i < kV; ++i) {
    if (s.include(g_v[i]) != (m.count(i) > 0)) bad("include");
    auto f = s.find(g_v[i]);
    if ((f != s.end()) != (m.count(i) > 0)) bad("find");
    if (f != s.end() && (!f->equal_to(g_v[i]) || f->get_type() != g_v[i].get_type() || f->get_name() != g_v[i].get_name())) bad("found variable");
  }
  auto h = g_hash.emplace(m, s.get_hash());
  if (h.first->second != s.get_hash()) bad("hash depends on history");
  if (s.to_string() != MStr(m)) bad("print");
}
static void CheckPair(const Variables& a, const Variables& b, const MS& x, const MS& y, const std::string& id, vf::Ctx& c) {
  ++c.evals;
  auto bad = [&](const std::string& w) { c.Fail(w + " " + id, vf::Cat("after ", id, ": ", w, " on ", MStr(x), " and ", MStr(y))); };
  if ((a == b) != (x == y)) bad("==");
  if (a.IsSubsetOf(b) != Includes(y, x)) bad("IsSubsetOf");
  if (a.IsSupersetOf(b) != Includes(x, y)) bad("IsSupersetOf");
  if (a.IsStrictSubsetOf(b) != (x != y && Includes(y, x))) bad("IsStrictSubsetOf");
  if (a.IsStrictSupersetOf(b) != (x != y && Includes(x, y))) bad("IsStrictSupersetOf");
  const bool lt = a < b, gt = b < a;
  if (lt && gt) bad("order not antisymmetric");
  if ((!lt && !gt) != (x == y)) bad("order classes");
  if (lt != std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end())) bad("order");
}

struct EState {
  Environment e;
  std::map<int, double> m;
};
static void CheckEnv(const Environment& e, const std::map<int, double>& m, const std::string& id, vf::Ctx& c) {
  ++c.evals;
  auto bad = [&](const std::string& w) { c.Fail(w + " " + id, vf::Cat("after ", id, ": ", w, "; environment ", e.to_string())); };
  if (e.size() != m.size() || e.empty() != m.empty()) bad("size");
  std::map<int, double> got;
  for (const auto& p : e) {
    int k = -1;
    for (int i = 0; i < kV; ++i) if (p.first.equal_to(g_v[i])) k = i;
    got[k] = p.second;
  }
  if (got != m) bad("content");
  MS dom;
  for (auto& p : m) dom.insert(p.first);
  CheckSet(e.domain(), dom, "domain of " + id, c);
  for (int i = 0; i < kV; ++i) {
    auto it = e.find(g_v[i]);
    if ((it != e.end()) != (m.count(i) > 0)) bad("find");
    else if (it != e.end() && it->second != m.at(i)) bad("found value");
    bool thrown = false;
    double v = 0;
    try { v = e[g_v[i]]; } catch (const std::runtime_error&) { thrown = true; }
    if (thrown != !m.count(i) || (!thrown && v != m.at(i))) bad("const index");
  }
  bool thrown = false;
  try { (void)e[Variable()]; } catch (const std::runtime_error&) { thrown = true; }
  if (!thrown) bad("const index with dummy accepted");
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  g_v = {Variable("x"), Variable("y", Variable::Type::INTEGER), Variable("x", Variable::Type::BINARY), Variable("b", Variable::Type::BOOLEAN)};
  // ids are increasing in creation order, which fixes the expected iteration order
  std::vector<SOp> ops;
  auto add = [&](const std::string& n, std::function<void(SState*)> r, std::function<void(SState*)> m) { ops.push_back({n, r, m}); };
  auto uni_ = [](MS a, const MS& b) { a.insert(b.begin(), b.end()); return a; };
  auto dif = [](MS a, const MS& b) { for (int x : MS(b)) a.erase(x); return a; };
  auto cap = [](const MS& a, const MS& b) { MS r; for (int x : a) if (b.count(x)) r.insert(x); return r; };
  for (int r = 0; r < 2; ++r) {
    const std::string R = r ? "B" : "A", O = r ? "A" : "B";
    for (int i = 0; i < kV; ++i) {
      const std::string vn = "v" + std::to_string(i);
      if (r == 1 && i > 1) continue;
      add(R + ".insert(" + vn + ")", [=](SState* s) { s->s[r].insert(g_v[i]); }, [=](SState* s) { s->m[r].insert(i); });
      add(R + ".erase(" + vn + ")", [=](SState* s) { s->s[r].erase(g_v[i]); }, [=](SState* s) { s->m[r].erase(i); });
      if (i >= 2) continue;
      add(R + "+=" + vn, [=](SState* s) { s->s[r] += g_v[i]; }, [=](SState* s) { s->m[r].insert(i); });
      add(R + "-=" + vn, [=](SState* s) { s->s[r] -= g_v[i]; }, [=](SState* s) { s->m[r].erase(i); });
      add(O + "=" + R + "+" + vn, [=](SState* s) { s->s[1 - r] = s->s[r] + g_v[i]; }, [=](SState* s) { s->m[1 - r] = uni_(s->m[r], {i}); });
      add(O + "=" + vn + "+" + R, [=](SState* s) { s->s[1 - r] = g_v[i] + s->s[r]; }, [=](SState* s) { s->m[1 - r] = uni_(s->m[r], {i}); });
      add(O + "=" + R + "-" + vn, [=](SState* s) { s->s[1 - r] = s->s[r] - g_v[i]; }, [=](SState* s) { s->m[1 - r] = dif(s->m[r], {i}); });
    }
    add(R + "={v3,v0,v3}", [=](SState* s) { s->s[r] = Variables{g_v[3], g_v[0], g_v[3]}; }, [=](SState* s) { s->m[r] = {0, 3}; });
    add(R + ".insert(list v1,v2,v1)", [=](SState* s) { std::vector<Variable> l{g_v[1], g_v[2], g_v[1]}; s->s[r].insert(l.begin(), l.end()); }, [=](SState* s) { s->m[r].insert({1, 2}); });
    for (int q = 0; q < 2; ++q) {
      const std::string Q = q ? "B" : "A";
      add(R + ".insert(" + Q + ")", [=](SState* s) { s->s[r].insert(s->s[q]); }, [=](SState* s) { s->m[r] = uni_(s->m[r], s->m[q]); });
      add(R + ".erase(" + Q + ")", [=](SState* s) { s->s[r].erase(s->s[q]); }, [=](SState* s) { s->m[r] = dif(s->m[r], s->m[q]); });
      add(R + "+=" + Q, [=](SState* s) { s->s[r] += s->s[q]; }, [=](SState* s) { s->m[r] = uni_(s->m[r], s->m[q]); });
      add(R + "-=" + Q, [=](SState* s) { s->s[r] -= s->s[q]; }, [=](SState* s) { s->m[r] = dif(s->m[r], s->m[q]); });
      add("A=" + R + "+" + Q, [=](SState* s) { s->s[0] = s->s[r] + s->s[q]; }, [=](SState* s) { s->m[0] = uni_(s->m[r], s->m[q]); });
      add("B=" + R + "-" + Q, [=](SState* s) { s->s[1] = s->s[r] - s->s[q]; }, [=](SState* s) { s->m[1] = dif(s->m[r], s->m[q]); });
      add("A=" + R + "&" + Q, [=](SState* s) { s->s[0] = intersect(s->s[r], s->s[q]); }, [=](SState* s) { s->m[0] = cap(s->m[r], s->m[q]); });
      add(R + "=copy " + Q, [=](SState* s) { s->s[r] = s->s[q]; }, [=](SState* s) { s->m[r] = MS(s->m[q]); });
    }
  }
  const int n = static_cast<int>(ops.size());
  d.rule = "case = one operation history; after every step both registers and an older copy are compared with std::set<int>, all pair relations included; hashes are compared across histories reaching the same content";
  d.bounds = {vf::Cat(n, " set operations over 2 registers and 4 variables (one dummy-free, two with the same name), depth 3 from 4 seeds"), "environment histories of depth 3 over 3 variables, dummy and 5 values incl NaN and infinity"};
  const int depth = d.thorough ? 4 : 3;
  const std::vector<std::pair<MS, MS>> seeds{{{}, {}}, {{0, 1, 2, 3}, {1, 3}}, {{0, 1}, {0, 1, 2, 3}}, {{2}, {0, 3}}};
  d.Add("set-histories", n * seeds.size(), [&](int64_t u, vf::Ctx& c) {
    const auto& seed = seeds[u / n];
    std::vector<int> path;
    std::function<void(const SState&)> rec;
    auto name = [&] {
      std::string s = MStr(seed.first) + MStr(seed.second);
      for (int p : path) s += "; " + ops[p].name;
      return s;
    };
    auto step = [&](const SState& st, int o) {
      path.push_back(o);
      const std::string id = name();
      c.Note(id);
      SState nx = st;
      const SState old = st;
      ops[o].real(&nx);
      ops[o].model(&nx);
      ++c.transitions;
      for (int r = 0; r < 2; ++r) {
        CheckSet(nx.s[r], nx.m[r], id, c);
        CheckSet(old.s[r], old.m[r], "copy before " + id, c);
        for (int q = 0; q < 2; ++q) CheckPair(nx.s[r], nx.s[q], nx.m[r], nx.m[q], id, c);
        CheckPair(nx.s[r], old.s[r], nx.m[r], old.m[r], id, c);
      }
      if (nx.m[0] != st.m[0] || nx.m[1] != st.m[1]) ++c.nontrivial;
      c.State(MStr(nx.m[0]) + MStr(nx.m[1]));
      if (static_cast<int>(path.size()) < depth) rec(nx);
      else ++c.traces;
      path.pop_back();
    };
    rec = [&](const SState& st) { for (int o = 0; o < n; ++o) step(st, o); };
    SState st;
    for (int i : seed.first) st.s[0].insert(g_v[i]);
    for (int i : seed.second) st.s[1].insert(g_v[i]);
    st.m[0] = seed.first;
    st.m[1] = seed.second;
    step(st, u % n);
    c.Sample(ops[u % n].name);
  });
  // erase reports the number of erased elements
  d.Add("erase-count", 256, [&](int64_t u, vf::Ctx& c) {
    Variables a, b;
    int both = 0;
    for (int i = 0; i < kV; ++i) {
      if (u >> i & 1) a.insert(g_v[i]);
      if (u >> (4 + i) & 1) b.insert(g_v[i]);
      both += (u >> i & 1) && (u >> (4 + i) & 1);
    }
    ++c.transitions;
    ++c.evals;
    if (static_cast<int>(a.erase(b)) != both) c.Fail(vf::Cat("erase ", u), vf::Cat("erase(", b, ") does not return ", both));
    for (int i = 0; i < kV; ++i) {
      Variables t = b;
      if (t.erase(g_v[i]) != ((u >> (4 + i)) & 1)) c.Fail(vf::Cat("erase1 ", u), "erase of one variable returns a wrong count");
    }
    ++c.traces;
  });
  const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  struct EOp { std::string name; int kind; int var; double val; };
  std::vector<EOp> eo;
  for (int v = -1; v < 3; ++v)
    for (double x : {0.0, 1.5, -2.0, inf, nan}) {
      eo.push_back({vf::Cat("insert(v", v, ",", x, ")"), 0, v, x});
      if (!(v == -1) && !std::isnan(x)) eo.push_back({vf::Cat("[v", v, "]=", x), 1, v, x});
    }
  for (int v = -1; v < 3; ++v) eo.push_back({vf::Cat("read [v", v, "]"), 2, v, 0});
  eo.push_back({"list {v0:1,v1:2,v0:3}", 3, 0, 0});
  eo.push_back({"list {v2,v0}", 4, 0, 0});
  eo.push_back({"list {v0:NaN}", 5, 0, 0});
  eo.push_back({"list {dummy:1}", 6, 0, 0});
  eo.push_back({"list {v1,dummy}", 7, 0, 0});
  eo.push_back({"map {v1:4}", 8, 0, 0});
  eo.push_back({"map {dummy:4}", 9, 0, 0});
  eo.push_back({"map {v1:NaN}", 10, 0, 0});
  const int m = static_cast<int>(eo.size());
  d.Add("environment-histories", m, [&](int64_t u, vf::Ctx& c) {
    std::vector<int> path;
    auto V = [&](int i) { return i < 0 ? Variable() : g_v[i]; };
    std::function<void(const EState&, int)> step = [&](const EState& st, int o) {
      path.push_back(o);
      std::string id;
      for (int p : path) id += (id.empty() ? "" : "; ") + eo[p].name;
      c.Note(id);
      EState nx = st;
      const EState old = st;
      const EOp& op = eo[o];
      bool thrown = false, want = false;
      try {
        switch (op.kind) {
          case 0:
            want = op.var < 0 || std::isnan(op.val);
            if (!want) nx.m.emplace(op.var, op.val);
            nx.e.insert(V(op.var), op.val);
            break;
          case 1:
            nx.m[op.var] = op.val;
            nx.e[V(op.var)] = op.val;
            break;
          case 2: {
            want = op.var < 0;
            double r = op.var < 0 ? 0 : nx.m[op.var];
            const double g = nx.e[V(op.var)];
            if (!want && g != r) c.Fail("read " + id, vf::Cat("after ", id, ": read gives ", g, " expected ", r));
            break;
          }
          case 3: nx.m = {{0, 1.0}, {1, 2.0}}; nx.e = Environment{{g_v[0], 1.0}, {g_v[1], 2.0}, {g_v[0], 3.0}}; break;
          case 4: nx.m = {{0, 0.0}, {2, 0.0}}; nx.e = Environment{g_v[2], g_v[0]}; break;
          case 5: want = true; nx.e = Environment{{g_v[0], nan}}; break;
          case 6: want = true; nx.e = Environment{{Variable(), 1.0}}; break;
          case 7: want = true; nx.e = Environment{g_v[1], Variable()}; break;
          case 8: nx.m = {{1, 4.0}}; nx.e = Environment{Environment::map{{g_v[1], 4.0}}}; break;
          case 9: want = true; nx.e = Environment{Environment::map{{Variable(), 4.0}}}; break;
          case 10: want = true; nx.e = Environment{Environment::map{{g_v[1], nan}}}; break;
        }
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      ++c.transitions;
      if (thrown != want) c.Fail("refusal " + id, vf::Cat("after ", id, want ? ": accepted" : ": refused"));
      CheckEnv(nx.e, nx.m, id, c);
      CheckEnv(old.e, old.m, "copy before " + id, c);
      std::string key;
      for (auto& p : nx.m) key += vf::Cat(p.first, "=", p.second, " ");
      c.State("env " + key);
      if (nx.m != st.m) ++c.nontrivial;
      if (static_cast<int>(path.size()) < depth) for (int q = 0; q < m; ++q) step(nx, q);
      else ++c.traces;
      path.pop_back();
    };
    step(EState{}, u);
  });
  // identity of variables
  d.Add("variables", 16, [&](int64_t u, vf::Ctx& c) {
    const Variable::Type T[] = {Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY, Variable::Type::BOOLEAN};
    std::vector<Variable> vs;
    std::vector<std::pair<std::string, Variable::Type>> want;
    for (int i = 0; i < 40; ++i) {
      const std::string nm = i % 3 == 0 ? "" : i % 3 == 1 ? "same" : vf::Cat("n", i);
      const Variable::Type t = i % 2 ? T[u / 4] : T[u % 4];
      Variable v(nm, t);
      switch (i % 5) {  // keep it through copies and moves
        case 1: { Variable w(v); v = w; break; }
        case 2: { Variable w(std::move(v)); v = std::move(w); break; }
        case 3: { Variable w; w = v; std::swap(w, v); break; }
        case 4: { std::vector<Variable> l{v, Variable("q"), v}; v = l.back(); break; }
        default: break;
      }
      vs.push_back(v);
      want.push_back({nm, t});
    }
    vs.push_back(Variable());
    want.push_back({"", Variable::Type::CONTINUOUS});
    std::set<size_t> ids;
    for (size_t i = 0; i < vs.size(); ++i) {
      ++c.transitions;
      if (vs[i].get_name() != want[i].first || vs[i].get_type() != want[i].second || vs[i].to_string() != want[i].first)
        c.Fail(vf::Cat("keeps ", u, " ", i), vf::Cat("variable ", i, " lost its name or type"));
      if (!ids.insert(vs[i].get_id()).second) c.Fail(vf::Cat("dup ", u, " ", i), "two variables share an identity");
      if (vs[i].is_dummy() != (i + 1 == vs.size())) c.Fail(vf::Cat("dummy ", u), "is_dummy is wrong");
      for (size_t j = 0; j < vs.size(); ++j) {
        ++c.evals;
        const bool same = i == j;
        if (vs[i].equal_to(vs[j]) != same || std::equal_to<Variable>{}(vs[i], vs[j]) != same) c.Fail(vf::Cat("eq ", u, i, j), vf::Cat("equal_to wrong for ", i, ",", j));
        if (same && vs[i].get_hash() != Variable(vs[j]).get_hash()) c.Fail(vf::Cat("hash ", u, i), "copies hash differently");
        if (!same && vs[i].less(vs[j]) == vs[j].less(vs[i])) c.Fail(vf::Cat("less ", u, i, j), "less is not a strict total order");
        if (same && (vs[i].less(vs[j]) || std::less<Variable>{}(vs[i], vs[j]))) c.Fail(vf::Cat("lessself ", u, i), "less is not irreflexive");
      }
    }
    for (auto t : {std::make_pair(T[0], "Continuous"), std::make_pair(T[1], "Integer"), std::make_pair(T[2], "Binary"), std::make_pair(T[3], "Boolean")}) {
      std::ostringstream o;
      o << t.first;
      if (o.str() != t.second) c.Fail("type print", "type prints as " + o.str());
    }
    ++c.traces;
  });
  return d.Run();
}
