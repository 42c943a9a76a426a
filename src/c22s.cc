// C22, second half: a statistics counter counts every event reported to it
// exactly once, whichever threads report them. The real Stat is driven under
// every schedule within a preemption bound (see xsched.h).
// BUILD: flavor=t src=xsched.cc
#include <atomic>
#include <memory>
#include <thread>
#include <vector>

#include "dreal/util/stat.h"
#include "vf.h"
#include "xsched.h"

struct Counters : dreal::Stat {
  explicit Counters(bool on) : Stat(on) {}
  void a() { increase(&x); }
  void b() { increase(&y); }
  std::atomic<int> x{0};
  std::atomic<int64_t> y{-3};
};
struct Scenario {
  bool on;
  std::vector<std::string> threads;  // the events each thread reports; 'r' reads
};
static void Body(void* a) {
  const Scenario& s = *static_cast<Scenario*>(a);
  sched::Begin();
  {
    Counters k(s.on);
    std::vector<std::thread> t;
    for (auto& w : s.threads)
      t.emplace_back([&k, &w] {
        for (char e : w) {
          if (e == 'a') k.a();
          if (e == 'b') k.b();
          if (e == 'r') { volatile int64_t v = k.x.load() + k.y.load() + k.enabled(); (void)v; }
        }
      });
    for (auto& x : t) x.join();
    sched::Untracked u;
    int na = 0, nb = 0;
    for (auto& w : s.threads) for (char e : w) { na += e == 'a'; nb += e == 'b'; }
    if (!s.on) na = nb = 0;
    if (k.x.load() != na || k.y.load() != nb - 3) sched::Failure("count", "a counter disagrees with the number of events reported");
  }
  sched::WaitAll();
  sched::End();
}
struct Seen {
  vf::Ctx* c;
  std::string name;
  int fails{0};
};
static bool On(void* a, const sched::Run& r) {
  Seen& s = *static_cast<Seen*>(a);
  ++s.c->traces;
  ++s.c->evals;
  if (r.fail) {
    s.c->Fail(std::string(r.fail) + " " + s.name, std::string(r.msg) + " in " + s.name + " schedule " + r.schedule);
    return ++s.fails < 2;
  }
  return true;
}
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const int most = d.thorough ? 3 : 2;
  d.rule = "case = threads reporting events to one statistics object, under every schedule within the preemption bound; counters against the number of events, and data races";
  auto v = std::make_shared<std::vector<Scenario>>();
  const std::vector<std::string> w{"a", "b", "aa", "ab", "ar", "ra", "aab"};
  for (bool on : {true, false}) {
    for (size_t i = 0; i < w.size(); ++i)
      for (size_t j = i; j < w.size(); ++j) {
        v->push_back({on, {w[i], w[j]}});
        if (i < 4 && j < 4) v->push_back({on, {w[i], w[j], "a"}});
      }
  }
  d.bounds = {vf::Cat(v->size(), " scenarios of 2 or 3 threads reporting up to 3 events each, at most ", most, " preemptions")};
  d.Add("counters-threads", v->size(), [v, most](int64_t u, vf::Ctx& c) {
    Scenario& sc = (*v)[u];
    std::string name = sc.on ? "enabled:" : "disabled:";
    for (auto& t : sc.threads) name += " " + t;
    c.Note(name);
    Seen s{&c, name};
    sched::Config cfg;
    cfg.preemptions = most;
    const sched::Stats st = sched::Explore(cfg, Body, &sc, On, &s);
    c.transitions += st.steps;
    c.states += st.choices;
    c.extra["schedules"] += st.schedules;
    ++c.nontrivial;
    c.Outcome(name);
    if (!st.complete && !s.fails) c.Fail("incomplete", "exploration stopped early in " + name);
    c.Sample(name + ": " + std::to_string(st.schedules) + " schedules");
  }, 600);
  return d.Run();
}
