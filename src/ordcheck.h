// Pairwise and (through score counting) triple-wise check of equality, order
// and hash on an enumerated universe.
#pragma once
#include "uni.h"
namespace uni {

template <class T>
struct OrdU {
  std::vector<T> a, b;            // two independently built copies
  std::vector<std::string> key;   // structure, read back through accessors
  std::vector<std::string> text;
};

template <class T>
void AddOrdStages(vf::Driver& d, const OrdU<T>& u, const std::string& pre) {
  const int64_t n = u.a.size();
  d.Add(pre + "pairs", n, [&u, n](int64_t i, vf::Ctx& c) {
    const T& x = u.a[i];
    for (int64_t j = 0; j < n; ++j) {
      for (int k = 0; k < 2; ++k) {
        const T& y = k ? u.b[j] : u.a[j];
        c.Note("compare " + u.text[i] + "  with  " + u.text[j]);
        const bool same = u.key[i] == u.key[j];
        const bool eq = x.EqualTo(y), eq2 = y.EqualTo(x);
        const bool lt = x.Less(y), gt = y.Less(x);
        c.evals += 4;
        ++c.transitions;
        c.Outcome(vf::Cat(eq, eq2, lt, gt));
        const std::string id = u.text[i] + " | " + u.text[j];
        if (eq != eq2) c.Fail("asym " + id, "equality is not symmetric: " + id);
        if (eq != same) c.Fail("equal " + id, vf::Cat("EqualTo says ", eq, " but the structures are ", same ? "the same: " : "different: ", id));
        if (static_cast<int>(lt) + gt + eq != 1) c.Fail("order " + id, vf::Cat("less=", lt, " greater=", gt, " equal=", eq, ": ", id));
        if (eq && x.get_hash() != y.get_hash()) c.Fail("hash " + id, "equal terms with different hashes: " + id);
        if (std::less<T>{}(x, y) != lt) c.Fail("stdless " + id, "std::less disagrees with Less: " + id);
        if (std::equal_to<T>{}(x, y) != eq) c.Fail("stdeq " + id, "std::equal_to disagrees with EqualTo: " + id);
        if (std::hash<T>{}(x) != x.get_hash()) c.Fail("stdhash " + id, "std::hash disagrees with get_hash: " + id);
        ++c.traces;
        if (i != j) ++c.nontrivial;
      }
    }
    c.State(u.key[i]);
    c.Sample(u.text[i]);
  });
  // A trichotomous relation is transitive iff it is acyclic iff the numbers of
  // predecessors of the distinct elements are 0..m-1: this covers all triples.
  d.Add(pre + "triples", 1, [&u, n](int64_t, vf::Ctx& c) {
    std::map<std::string, int64_t> rep;
    for (int64_t i = 0; i < n; ++i) rep.emplace(u.key[i], i);
    std::vector<std::pair<int64_t, int64_t>> score;
    for (auto& p : rep) {
      int64_t s = 0;
      for (auto& q : rep)
        if (u.a[q.second].Less(u.b[p.second])) ++s;
      score.push_back({s, p.second});
    }
    std::sort(score.begin(), score.end());
    ++c.transitions;
    for (size_t i = 0; i < score.size(); ++i) {
      ++c.evals;
      if (score[i].first != static_cast<int64_t>(i)) {
        // exhibit a cycle of three
        const int64_t m = static_cast<int64_t>(score.size());
        for (int64_t p = 0; p < m; ++p)
          for (int64_t q = 0; q < m; ++q) {
            if (!u.a[score[p].second].Less(u.a[score[q].second])) continue;
            for (int64_t r = 0; r < m; ++r)
              if (u.a[score[q].second].Less(u.a[score[r].second]) && u.a[score[r].second].Less(u.a[score[p].second])) {
                const std::string id = u.text[score[p].second] + " < " + u.text[score[q].second] + " < " + u.text[score[r].second] + " < first";
                c.Fail("cycle " + id, "the order is cyclic: " + id);
                return;
              }
          }
        c.Fail("order-scores", "the order is not a strict total order");
        return;
      }
    }
    // ordered and hashed containers keep exactly the distinct terms
    std::set<T> s;
    std::unordered_set<T> h;
    for (int64_t i = 0; i < n; ++i) {
      s.insert(i % 2 ? u.a[i] : u.b[i]);
      h.insert(i % 2 ? u.b[i] : u.a[i]);
    }
    for (int64_t i = 0; i < n; ++i) {
      ++c.evals;
      if (!s.count(u.a[i]) || !s.count(u.b[i])) c.Fail("set-lookup " + u.text[i], "not found in a std::set that contains it: " + u.text[i]);
      if (!h.count(u.a[i]) || !h.count(u.b[i])) c.Fail("hash-lookup " + u.text[i], "not found in an unordered_set that contains it: " + u.text[i]);
    }
    if (s.size() != rep.size()) c.Fail("set-size", vf::Cat("a std::set holds ", s.size(), " of ", rep.size(), " distinct terms"));
    if (h.size() != rep.size()) c.Fail("hset-size", vf::Cat("an unordered_set holds ", h.size(), " of ", rep.size(), " distinct terms"));
    c.extra["distinct terms in " + std::string(typeid(T).name())] = rep.size();
  });
}

}  // namespace uni
