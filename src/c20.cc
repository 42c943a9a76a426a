// C20: scoped containers against a stack of full copies, over every history.
#include <algorithm>
#include <map>
#include <unordered_map>
#include <set>
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
#include "vf.h"

template <class Real, class Model>
struct St {
  Real r;
  Model m;
  std::vector<Model> stack;
};
template <class Real, class Model>
struct Op {
  std::string name;
  std::function<void(Real*)> r;
  std::function<void(Model*)> m;
};
// drives push/pop/copy/move/clear around the container's own operations
template <class Real, class Model>
void Explore(vf::Driver* d, const std::string& name, const std::vector<Op<Real, Model>>& ops, int depth,
             const std::function<std::string(const Real&, const Model&)>& check,
             const std::function<void(Real*)>& clear,
             const std::function<std::string(Real*, const Model& before, const Model& after)>& pop) {
  using S = St<Real, Model>;
  const int n = static_cast<int>(ops.size()), push_i = n, pop_i = n + 1, copy_i = n + 2, move_i = n + 3, clear_i = n + 4;
  const int total = clear ? n + 5 : n + 4;
  d->Add(name, total * total, [=](int64_t u, vf::Ctx& c) {
    std::vector<int> path;
    auto id = [&] {
      std::string s = name;
      for (int o : path) s += " " + (o < n ? ops[o].name : o == push_i ? "push" : o == pop_i ? "pop" : o == copy_i ? "copy" : o == move_i ? "move" : "clear");
      return s;
    };
    std::function<void(const S&, int)> step = [&](const S& st, int o) {
      path.push_back(o);
      c.Note(id());
      S nx = st;
      const Model before = nx.m;
      std::string why;
      if (o < n) {
        ops[o].r(&nx.r);
        ops[o].m(&nx.m);
      } else if (o == push_i) {
        nx.stack.push_back(nx.m);
        nx.r.push();
      } else if (o == pop_i) {
        const bool can = !nx.stack.empty();
        Model after = nx.m;
        if (can) { after = nx.stack.back(); nx.stack.pop_back(); }
        bool thrown = false;
        try { why = pop(&nx.r, before, after); } catch (const std::runtime_error&) { thrown = true; }
        if (thrown == can) why = can ? "pop refused" : "pop of more scopes than were pushed accepted";
        nx.m = after;
      } else if (o == copy_i) {  // work on a copy; the original must stay as it is
        Real cp(nx.r);
        cp.push();
        for (auto& p : ops) p.r(&cp);
        Real cp2;
        cp2 = nx.r;
        nx.r = cp2;
      } else if (o == move_i) {
        Real t(std::move(nx.r));
        nx.r = std::move(t);
      } else {
        clear(&nx.r);
        nx.m = Model();
        nx.stack.clear();
      }
      ++c.transitions;
      ++c.evals;
      if (why.empty()) why = check(nx.r, nx.m);
      if (!why.empty()) c.Fail(id(), "after " + id() + ": " + why);
      why = check(st.r, st.m);
      if (!why.empty()) c.Fail("copy " + id(), "the container copied before the last of " + id() + " changed: " + why);
      if (!nx.stack.empty()) ++c.nontrivial;
      c.Outcome(name + std::to_string(nx.m.size()) + "/" + std::to_string(nx.stack.size()));
      if (static_cast<int>(path.size()) < depth) for (int p = 0; p < total; ++p) step(nx, p);
      else {
        ++c.traces;
        // unwind: every enclosing scope must come back
        S e = nx;
        while (!e.stack.empty()) {
          const Model b = e.m;
          e.m = e.stack.back();
          e.stack.pop_back();
          std::string w;
          try { w = pop(&e.r, b, e.m); } catch (const std::runtime_error& x) { w = x.what(); }
          if (w.empty()) w = check(e.r, e.m);
          if (!w.empty()) { c.Fail("unwind " + id(), "unwinding after " + id() + ": " + w); break; }
        }
      }
      path.pop_back();
    };
    S s;
    const int a = u / total, b = u % total;
    path.push_back(a);
    path.pop_back();
    // unit = first two operations
    std::function<void(const S&, int)> first = [&](const S& st, int o) {
      path.push_back(o);
      S nx = st;
      if (o < n) { ops[o].r(&nx.r); ops[o].m(&nx.m); }
      else if (o == push_i) { nx.stack.push_back(nx.m); nx.r.push(); }
      else if (o == pop_i) { bool t = false; try { pop(&nx.r, nx.m, nx.m); } catch (const std::runtime_error&) { t = true; } if (!t) c.Fail("pop0 " + name, name + ": pop of a new container accepted"); }
      else if (o == clear_i) clear(&nx.r);
      const std::string w = check(nx.r, nx.m);
      if (!w.empty()) c.Fail(id(), "after " + id() + ": " + w);
      step(nx, b);
      path.pop_back();
    };
    first(s, a);
    c.State(name + std::to_string(u));
    c.Sample(name);
  });
}

// a hash that collides, so that bucket chains are exercised
struct H1 { size_t operator()(int) const { return 1; } };

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const int dv = d.thorough ? 8 : 7, dm = d.thorough ? 7 : 6;
  d.rule = "case = one operation history; after every step content, size, lookups and (vector) order are compared with a model that keeps a full copy per open scope; copies taken before each step must not change; at the end all scopes are unwound and compared";
  d.bounds = {vf::Cat("vector histories of length ", dv, " over 2 values; map of length ", dm, " over 3 keys x 2 values (normal and colliding hash); set of length ", dm + 1, " over 3 keys")};
  {
    using R = dreal::ScopedVector<int>;
    using M = std::vector<int>;
    std::vector<Op<R, M>> ops;
    ops.push_back({"push_back(1)", [](R* r) { const int v = 1; r->push_back(v); }, [](M* m) { m->push_back(1); }});
    ops.push_back({"push_back(2)", [](R* r) { r->push_back(2); }, [](M* m) { m->push_back(2); }});
    std::function<std::string(const R&, const M&)> check = [](const R& r, const M& m) -> std::string {
      if (r.size() != m.size() || r.empty() != m.empty()) return "size is wrong";
      if (M(r.begin(), r.end()) != m || M(r.cbegin(), r.cend()) != m) return "iteration is wrong";
      if (r.get_vector() != m) return "get_vector is wrong";
      R nr = r;
      if (nr.get_vector() != m || M(nr.begin(), nr.end()) != m) return "copy is wrong";
      M rev(m.rbegin(), m.rend());
      if (r.get_reverse() != rev || M(r.rbegin(), r.rend()) != rev || M(r.crbegin(), r.crend()) != rev || M(nr.rbegin(), nr.rend()) != rev) return "reverse is wrong";
      for (size_t i = 0; i < m.size(); ++i) if (r[i] != m[i] || nr[i] != m[i]) return "indexing is wrong";
      if (!m.empty() && (r.first() != m.front() || r.last() != m.back() || nr.first() != m.front() || nr.last() != m.back())) return "first/last is wrong";
      return "";
    };
    Explore<R, M>(&d, "vector", ops, dv, check, nullptr, [](R* r, const M& b, const M& a) -> std::string {
      const size_t k = r->pop();
      return k == b.size() - a.size() ? "" : "pop returns a wrong count";
    });
  }
  auto map_stage = [&](auto hash, const std::string& name) {
    using R = dreal::ScopedUnorderedMap<int, int, decltype(hash)>;
    using M = std::map<int, int>;
    std::vector<Op<R, M>> ops;
    for (int k = 0; k < 3; ++k)
      for (int v = 0; v < (k == 2 ? 1 : 2); ++v)
        ops.push_back({vf::Cat("insert(", k, ",", v, ")"), [k, v](R* r) { r->insert(k, v); }, [k, v](M* m) { (*m)[k] = v; }});
    std::function<std::string(const R&, const M&)> check = [](const R& r, const M& m) -> std::string {
      if (r.size() != m.size() || r.empty() != m.empty()) return "size is wrong";
      if (M(r.begin(), r.end()) != m || M(r.cbegin(), r.cend()) != m) return "content is wrong";
      for (int k = 0; k < 4; ++k) {
        auto it = m.find(k);
        if (r.count(k) != m.count(k)) return "count is wrong";
        auto f = r.find(k);
        if ((f == r.end()) != (it == m.end()) || (f != r.end() && f->second != it->second)) return "find is wrong";
        if (it == m.end() && k < 3) continue;  // exceptions are slow; one absent key is enough
        bool thrown = false;
        try { if (r[k] != it->second) return "lookup is wrong"; } catch (const std::runtime_error&) { thrown = true; }
        if (thrown != (it == m.end())) return "lookup of an absent key accepted";
        if (m.size() != 1) break;
      }
      return "";
    };
    Explore<R, M>(&d, name, ops, dm, check, [](R* r) { r->clear(); }, [](R* r, const M&, const M&) -> std::string { r->pop(); return ""; });
  };
  map_stage(std::hash<int>(), "map");
  map_stage(H1(), "map-colliding");
  {
    using R = dreal::ScopedUnorderedSet<int>;
    using M = std::set<int>;
    std::vector<Op<R, M>> ops;
    for (int k = 0; k < 3; ++k) ops.push_back({vf::Cat("insert(", k, ")"), [k](R* r) { r->insert(k); }, [k](M* m) { m->insert(k); }});
    std::function<std::string(const R&, const M&)> check = [](const R& r, const M& m) -> std::string {
      if (r.size() != m.size() || r.empty() != m.empty()) return "size is wrong";
      if (M(r.begin(), r.end()) != m || M(r.cbegin(), r.cend()) != m) return "content is wrong";
      for (int k = 0; k < 4; ++k) {
        if (r.count(k) != m.count(k)) return "count is wrong";
        if ((r.find(k) == r.end()) == (m.count(k) > 0)) return "find is wrong";
      }
      return "";
    };
    Explore<R, M>(&d, "set", ops, dm + 1, check, [](R* r) { r->clear(); }, [](R* r, const M&, const M&) -> std::string { r->pop(); return ""; });
  }
  return d.Run();
}
