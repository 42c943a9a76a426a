// BUILD: full flavor=t src=xsched.cc
// C19: branch-and-prune by several workers, under every schedule within a
// preemption bound (see xsched.h): no data race, no misuse of the containers,
// no deadlock or livelock, and answers judged like those of C25.
#include <fcntl.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <thread>

#include "dreal/api/api.h"
#include "dreal/solver/context.h"
#include "dreal/util/interrupt.h"
#include "dreal/util/logging.h"
#include "problems.h"
#include "xsched.h"
using namespace dreal;
using prob::P;
namespace {
struct Step {
  char op;     // N new context, D delete, A assert, C check, U push, O pop, J set jobs, L log level, I/i interrupt on/off
  int ctx{0};  // which of the contexts
  int arg{0};  // jobs / formula
  bool thread{false};  // in a thread of its own
};
struct Scn {
  std::string name;
  std::vector<Step> steps;
  double delta{0.25};
  prob::Bounds q{"narrow", -2, 3, -2, 3, -1, 3};
  bool poly{false}, wl{false}, left{false};
  int pb{1};
  int dl{-1};  // if not negative, bound the delays
  bool counts{false};
  bool interrupt{false};  // a further thread interrupts at some point
  bool users{false};      // every context is used by a thread of its own, at the same time
};
const prob::Vars* V;
std::vector<P>* F;
std::vector<std::pair<prob::Bits, int>>* W;
prob::Bits* in_bounds = nullptr;

[[noreturn]] void Bad(const std::string& k, const std::string& m) { sched::Failure(k.c_str(), m.c_str()); abort(); }
struct St {
  std::unique_ptr<Context> c[3];
  std::vector<std::vector<int>> asserted[3];
  int jobs[3]{1, 1, 1};
  std::string outs[3];
  std::string out;
};
void Judge(const Scn& s, St* st, int k, const optional<Box>& r, bool thrown) {
  sched::Untracked u;
  std::vector<const P*> fs;
  std::string t;
  for (auto& l : st->asserted[k]) for (int i : l) { fs.push_back(&(*F)[i]); t += vf::Cat(" [", (*F)[i].f, "]"); }
  if (thrown) { st->outs[k] += 'x'; return; }
  st->outs[k] += r ? 's' : 'u';
  if (!r) {
    prob::Bits b = *in_bounds;
    for (auto* p : fs) b = prob::AndB(b, p->t);
    const int i = prob::First(b);
    if (i >= 0) Bad("unsat" + t, vf::Cat("unsatisfiable, though ", prob::Pt(i), " satisfies", t));
  } else {
    const std::string e = prob::ModelError(*r, *V, fs, &s.q, s.delta);
    if (!e.empty()) Bad("model" + t, e);
  }
}
void Do(const Scn& s, St* st, const Step& x) {
  const int k = x.ctx;
  switch (x.op) {
    case 'N': {
      Config c;
      c.mutable_precision() = s.delta;
      c.mutable_number_of_jobs() = x.arg;
      c.mutable_use_polytope() = s.poly;
      c.mutable_use_polytope_in_forall() = s.poly;
      c.mutable_use_worklist_fixpoint() = s.wl;
      c.mutable_stack_left_box_first() = s.left;
      c.mutable_dump_theory_literals() = s.name.find("dumping") != std::string::npos;
      st->c[k].reset(new Context(c));
      st->c[k]->DeclareVariable(V->x, s.q.xl, s.q.xu);
      st->c[k]->DeclareVariable(V->y, s.q.yl, s.q.yu);
      st->asserted[k] = {{}};
      break;
    }
    case 'D': st->c[k].reset(); break;
    case 'A':
      st->c[k]->Assert((*F)[x.arg].f);
      st->asserted[k].back().push_back(x.arg);
      break;
    case 'C': {
      optional<Box> r;
      bool thrown = false;
      try {
        r = st->c[k]->CheckSat();
      } catch (const std::exception& e) {
        sched::Untracked u;
        if (!s.interrupt) Bad("exception", e.what());
        if (std::string(e.what()).find("Interrupt") == std::string::npos) Bad("exception", e.what());
        thrown = true;
      }
      Judge(s, st, k, r, thrown);
      break;
    }
    case 'U': st->c[k]->Push(1); st->asserted[k].emplace_back(); break;
    case 'O': st->c[k]->Pop(1); st->asserted[k].pop_back(); break;
    case 'J': st->c[k]->mutable_config().mutable_number_of_jobs() = x.arg; break;
    case 'i': g_interrupted = false; break;
    default: abort();
  }
}
void Body(void* a) {
  const Scn& s = *static_cast<Scn*>(a);
  if (s.name.find("logging") != std::string::npos || s.name.find("dumping") != std::string::npos) {
    const int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    if (s.name.find("logging") != std::string::npos) dreal::log()->set_level(spdlog::level::info);
  }
  sched::Begin();
  St st;
  {
    std::thread intr;
    if (s.interrupt) intr = std::thread([] { g_interrupted = true; });
    bool joined = !s.interrupt;
    if (s.users) {
      std::vector<std::thread> t;
      for (int k = 0; k < 3; ++k) {
        bool any = false;
        for (auto& x : s.steps) any = any || x.ctx == k;
        if (any) t.emplace_back([&s, &st, k] { for (auto& x : s.steps) if (x.ctx == k) Do(s, &st, x); });
      }
      for (auto& x : t) x.join();
    } else for (auto& x : s.steps) {
      if (x.op == 'i' && !joined) { intr.join(); joined = true; }
      if (x.thread) {
        std::thread t([&] { Do(s, &st, x); });
        t.join();
      } else {
        Do(s, &st, x);
      }
    }
    if (!joined) intr.join();
    for (auto& c : st.c) c.reset();
    for (auto& o : st.outs) st.out += o;
  }
  {
    sched::Untracked u;
    sched::Out(st.out.data(), st.out.size());
  }
  sched::WaitAll();
  sched::End();
}
struct Seen {
  vf::Ctx* c;
  std::string name;
  std::map<std::string, int> outs;
  int fails{0};
};
bool On(void* a, const sched::Run& r) {
  Seen& s = *static_cast<Seen*>(a);
  ++s.c->traces;
  ++s.c->evals;
  if (r.fail) {
    s.c->Fail(std::string(r.fail) + " " + s.name, std::string(r.msg) + " in " + s.name + " schedule " + r.schedule);
    return ++s.fails < 1;
  }
  ++s.outs[std::string(r.out, r.out_len)];
  return true;
}
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const prob::Vars v;
  V = &v;
  const Expression x{v.x}, y{v.y};
  static std::vector<P> fs;
  F = &fs;
  auto mk = [](const Formula& f) { fs.push_back(prob::Mk(f)); return static_cast<int>(fs.size()) - 1; };
  const int root2 = mk(pow(x, 2) == 2), apart = mk(x * x - x + 0.5 == 0), circle = mk(pow(x, 2) + pow(y, 2) == 1),
            hyper = mk(x * y == 1), line = mk(x + y == 1), far = mk(x * y >= 7), both = mk(x > y || x * x - x + 0.5 == 0), cubic = mk(pow(x, 3) - x == 0),
            sn = mk(sin(x) == 0.5 * y), hard = mk(!(pow(x, 2) + pow(y, 2) - 2 * x * y > -1) || x + y == 1), hard2 = mk(pow(x, 2) + pow(y, 2) - 2 * x * y <= -1 || (x + y == 1 && x >= y));
  (void)hyper; (void)cubic;
  const prob::Bounds wide{"wide", -2, 3, -2, 3, -1, 3}, one{"one", 0, 1, 0, 1, -1, 3}, square{"square", -1, 1, -1, 1, -1, 3};
  auto v0 = std::make_shared<std::vector<Scn>>();
  d.rule = "case = a script of contexts, assertions, checks, scopes, changed numbers of jobs and interrupts run by one or several threads, under every schedule within the bound; races, misuse of memory and containers, deadlock and livelock are reported, and every answer is judged on a grid";
  d.bounds = {"2 or 3 workers; eight problems of one or two constraints over two reals under every schedule of at most 1 (some: 2; thorough: 2) deviations", "63 histories of up to 3 contexts, some used by two threads at the same time, under every schedule of at most 1 (some: 2) delays"};
  auto single = [&](const std::string& n, int jobs, std::vector<int> as, double delta, const prob::Bounds& q) {
    Scn s;
    s.name = vf::Cat(n, " jobs=", jobs, " delta=", delta);
    s.steps = {{'N', 0, jobs}};
    for (int f : as) s.steps.push_back({'A', 0, f});
    s.steps.push_back({'C', 0});
    s.delta = delta;
    s.q = q;
    return s;
  };
  for (int jobs : {2, 3}) {
    v0->push_back(single("root2", jobs, {root2}, 0.25, wide));
    v0->push_back(single("apart", jobs, {apart}, 0.1, one));
    v0->push_back(single("circle", jobs, {circle}, 0.5, wide));
    v0->push_back(single("line and far", jobs, {line, far}, 0.5, wide));
    v0->push_back(single("both", jobs, {both}, 0.25, one));
    // The answer depends on the explanation of a refuted assignment, and only
    // workers find one: the first pruning changes nothing.
    v0->push_back(single("either", jobs, {hard}, 0.25, square));
    v0->push_back(single("either, reversed", jobs, {hard2}, 0.25, square));
    v0->push_back(single("sin", jobs, {sn, hyper}, 0.25, wide));
  }
  // several contexts, threads and numbers of jobs
  auto v1 = std::make_shared<std::vector<Scn>>();
  {
    auto hist = [&](const std::string& n, std::vector<Step> st) {
      Scn s;
      s.name = n; s.steps = st; s.delta = 0.25; s.q = wide; s.dl = 1;
      v1->push_back(s);
      return &v1->back();
    };
    const int r = root2, l = circle, fa = far;
    for (int j : {2, 3}) {
      const std::string J = vf::Cat(" jobs=", j);
      hist("twice" + J, {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'A', 0, l}, {'C', 0}});
      hist("scopes" + J, {{'N', 0, j}, {'A', 0, r}, {'U', 0}, {'A', 0, fa}, {'C', 0}, {'O', 0}, {'C', 0}});
      hist("two contexts" + J, {{'N', 0, j}, {'A', 0, r}, {'N', 1, j}, {'A', 1, l}, {'C', 0}, {'C', 1}, {'C', 0}});
      hist("one after the other" + J, {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'D', 0}, {'N', 0, j}, {'A', 0, l}, {'C', 0}});
      hist("one deleted while another is kept" + J, {{'N', 0, j}, {'A', 0, r}, {'N', 1, j}, {'A', 1, l}, {'C', 1}, {'D', 1}, {'C', 0}, {'C', 0}});
      hist("used in another thread" + J, {{'N', 0, j}, {'A', 0, r}, {'C', 0, 0, true}});
      hist("used in two threads" + J, {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'C', 0, 0, true}});
      hist("made in another thread" + J, {{'N', 0, j, true}, {'A', 0, r}, {'C', 0}});
      hist("a context in each thread" + J, {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'N', 1, j, true}, {'A', 1, l}, {'C', 1, 0, true}});
      hist("within another thread" + J, {{'N', 0, j, true}, {'A', 0, r}, {'C', 0, 0, true}, {'D', 0, 0, true}});
    }
    for (int j : {1, 2}) {
      const std::string J = vf::Cat(" jobs=", j);
      auto both = [&](const std::string& n, std::vector<Step> st) { hist(n + J, std::move(st))->users = true; };
      both("two users", {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'N', 1, j}, {'A', 1, l}, {'C', 1}});
      both("two users of the same constraint", {{'N', 0, j}, {'A', 0, r}, {'C', 0}, {'N', 1, j}, {'A', 1, r}, {'C', 1}});
      both("two users, scopes", {{'N', 0, j}, {'A', 0, r}, {'U', 0}, {'A', 0, fa}, {'C', 0}, {'O', 0}, {'C', 0}, {'N', 1, j}, {'A', 1, apart}, {'C', 1}, {'D', 1}});
    }
    for (auto p : std::vector<std::pair<int, int>>{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {1, 3}}) {
      const std::string J = vf::Cat(" jobs=", p.first, " then ", p.second);
      hist("changed" + J, {{'N', 0, p.first}, {'A', 0, r}, {'C', 0}, {'J', 0, p.second}, {'C', 0}, {'C', 0}});
      hist("changed first" + J, {{'N', 0, p.first}, {'J', 0, p.second}, {'A', 0, r}, {'C', 0}});
      hist("changed and back" + J, {{'N', 0, p.first}, {'A', 0, r}, {'C', 0}, {'J', 0, p.second}, {'C', 0}, {'J', 0, p.first}, {'C', 0}});
    }
    for (auto p : std::vector<std::pair<int, int>>{{2, 1}, {3, 1}, {3, 2}, {2, 3}}) {
      Scn* s = hist(vf::Cat("lowered first, then raised jobs=", p.first, " then ", p.second), {{'N', 0, p.first}, {'J', 0, p.second}, {'A', 0, l}, {'C', 0}, {'J', 0, p.first}, {'C', 0}});
      (void)s;
    }
    for (int j : {2, 3}) {
      Scn* s = hist(vf::Cat("interrupted jobs=", j), {{'N', 0, j}, {'A', 0, apart}, {'C', 0}, {'i'}, {'C', 0}});
      s->interrupt = true;
      s->delta = 0.2;
      s->q = one;
      s->dl = j == 2 ? 2 : 1;
    }
    for (int j : {2, 3}) for (auto st : {'p', 'w', 'l'}) {
      Scn* s = hist(vf::Cat(st == 'p' ? "polytope" : st == 'w' ? "worklist" : "left", " jobs=", j), {{'N', 0, j}, {'A', 0, l}, {'A', 0, line}, {'C', 0}});
      s->poly = st == 'p'; s->wl = st == 'w'; s->left = st == 'l';
    }
    const Variable q{"q"};
    uni::VV().Add(q);
    static const int all = mk(dreal::forall({q}, imply(q >= 0 && q <= 1, x * q <= 0.5 * q + 0.25)));
    for (int j : {2, 3}) {
      hist(vf::Cat("forall jobs=", j), {{'N', 0, j}, {'A', 0, all}, {'A', 0, r}, {'C', 0}});
      for (auto n : {"forall and circle", "forall and circle, logging", "forall and circle, dumping literals"}) {
        Scn* s = hist(vf::Cat(n, " jobs=", j), {{'N', 0, j}, {'A', 0, all}, {'A', 0, l}, {'C', 0}});
        s->delta = 0.5;
      }
      hist(vf::Cat("logging jobs=", j), {{'N', 0, j}, {'A', 0, l}, {'C', 0}});
    }
  }
  for (auto& s : *v0) {
    const bool two = s.steps[0].arg == 2;
    if (d.thorough) { if (two) s.pb = 2; else s.dl = 2; }
    else if (!two) s.dl = 1;
    else if (s.name.find("sin") == std::string::npos && s.name.find("circle") == std::string::npos) s.pb = 2;
  }
  if (d.thorough)
    for (auto& s : *v1)
      for (auto n : {"twice jobs=2", "scopes jobs=2", "two contexts jobs=2", "used in two threads jobs=2", "changed jobs=", "forall jobs=2", "two users"})
        if (s.name.find(n) != std::string::npos) s.dl = 2;
  for (auto& w : {std::make_pair("schedules", v0), std::make_pair("histories", v1)}) {
  auto v0 = w.second;
  const int shards = 8;
  d.Add(w.first, v0->size() * shards, [v0, shards](int64_t u, vf::Ctx& c) {
    Scn& sc = (*v0)[u / shards];
    static prob::Bits in;
    in = prob::Within(sc.q);
    in_bounds = &in;
    c.Note(sc.name);
    Seen s{&c, sc.name};
    sched::Config cfg;
    cfg.preemptions = sc.pb;
    cfg.delays = sc.dl;
    cfg.fair_spin = true;
    cfg.counts = sc.counts;
    cfg.leaks = false;
    cfg.shard = u % shards;
    cfg.shards = shards;
    // Find out what is shared before dividing the work.
    sched::Config warm = cfg;
    warm.preemptions = 0;
    warm.delays = cfg.delays >= 0 ? 0 : cfg.delays;
    warm.shards = 1;
    warm.shard = 0;
    sched::Explore(warm, Body, &sc, On, &s);
    if (cfg.delays > 1 || cfg.preemptions > 1) {
      warm.preemptions = 1;
      warm.delays = cfg.delays >= 0 ? 1 : -1;
      warm.keep_shared = true;
      sched::Explore(warm, Body, &sc, On, &s);
    }
    cfg.keep_shared = true;
    const sched::Stats st = sched::Explore(cfg, Body, &sc, On, &s);
    c.transitions += st.steps;
    c.states += st.choices;
    c.extra["schedules"] += st.schedules;
    c.extra["accesses"] += st.accesses;
    ++c.nontrivial;
    for (auto& o : s.outs) c.Outcome(sc.name + o.first);
    if (!st.complete && !s.fails) c.Fail("incomplete", "exploration stopped early in " + sc.name);
    std::string o;
    for (auto& q : s.outs) o += vf::Cat(" ", q.first, ":", q.second);
    c.Sample(vf::Cat(sc.name, ": ", st.schedules, " schedules, ", st.max_depth, " decisions, ", st.shared, " shared,", o));
  }, 900);
  }
  return d.Run();
}
