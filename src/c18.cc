// C18: the thread pool runs every accepted task exactly once. The real
// ThreadPool is driven under every schedule within a preemption bound (see
// xsched.h), including the choice of the waiter a notification wakes and
// spurious wakeups.
// BUILD: flavor=t src=xsched.cc
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <thread>

#include "ThreadPool/ThreadPool.h"
#include "vf.h"
#include "xsched.h"

// Kinds of tasks.
//  r returns its number        v returns nothing
//  a takes arguments           t throws its number
//  s sets the promise that w tasks wait for; w waits for it and returns
//  n submits an r task from inside, without waiting for it
//  m submits an r task from inside and waits for it
//  d drops its future at once
struct Scenario {
  int workers;
  std::string main_tasks;   // submitted by the thread that owns the pool
  std::string other_tasks;  // submitted by another thread ("" : none)
  bool wait;                // collect the results before the pool is destroyed
  int pools;                // one after the other
};
static std::string Name(const Scenario& s) {
  return std::to_string(s.workers) + " workers, tasks " + s.main_tasks + (s.other_tasks.empty() ? "" : " and (from another thread) " + s.other_tasks) +
         (s.wait ? ", results awaited first" : ", destroyed at once") + (s.pools > 1 ? ", two pools in turn" : "");
}

// Bookkeeping of the harness; only touched in Untracked scopes.
struct Book {
  int runs[32];
  bool accepted[32], done[32];
  int running, most, n;
  int id_of_thread[16];
  int workers;
  bool closing;
};
static Book* book;

struct InTask {
  int k;
  explicit InTask(int task) : k{task} {
    const int id = ThreadPool::get_thread_id();
    {
      sched::Untracked u;
      Book& b = *book;
      ++b.runs[k];
      if (b.runs[k] > 1) sched::Failure("run twice", "a task ran twice");
      if (sched::Self() == 0) sched::Failure("not on a worker", "a task ran on the submitting thread");
      if (++b.running > b.workers) sched::Failure("too many at once", "more tasks run at once than there are workers");
      if (id < 1 || id > b.workers) sched::Failure("worker index", "a worker's index is not between 1 and the number of workers");
      for (int t = 0; t < 16; ++t)
        if (t != sched::Self() && b.id_of_thread[t] == id) sched::Failure("worker index", "two workers have the same index");
      if (b.id_of_thread[sched::Self()] && b.id_of_thread[sched::Self()] != id) sched::Failure("worker index", "the index of a worker changed");
      b.id_of_thread[sched::Self()] = id;
    }
    sched::Point();
  }
  ~InTask() {
    sched::Untracked u;
    --book->running;
    book->done[k] = true;
  }
};

struct Pending {
  char kind;
  int k;
  std::future<int> f;
  std::future<void> g;
  bool dropped{false};
};

struct World {
  std::unique_ptr<ThreadPool> pool;
  std::promise<int> go;
  std::shared_future<int> gone;
  World() : gone(go.get_future().share()) {}
};

static int NewTask() {
  sched::Untracked u;
  const int k = book->n++;
  book->accepted[k] = true;
  return k;
}

// An inner task: accepted and run, or refused because shutdown has begun.
static int Inner(World* w, bool wait) {
  int k;
  bool closing;
  {
    sched::Untracked u;
    k = book->n++;
    closing = book->closing && sched::Joining(0);
  }
  std::future<int> f;
  try {
    f = w->pool->enqueue([k] {
      InTask in(k);
      return 100 + k;
    });
  } catch (const std::runtime_error&) {
    return -1;
  }
  {
    sched::Untracked u;
    book->accepted[k] = true;
    if (closing) sched::Failure("accepted after shutdown", "a task submitted after shutdown had begun was accepted");
  }
  if (wait && f.get() != 100 + k) sched::Failure("wrong result", "the result of an inner task is wrong");
  return 0;
}

static void Submit(World* w, char kind, std::vector<Pending>* out) {
  Pending p;
  p.kind = kind;
  const int k = p.k = NewTask();
  switch (kind) {
    case 'r':
    case 'd':
      p.f = w->pool->enqueue([k] { InTask in(k); return 100 + k; });
      break;
    case 'v':
      p.g = w->pool->enqueue([k] { InTask in(k); });
      break;
    case 'a':
      p.f = w->pool->enqueue([](int a, int b) { InTask in(a); return b; }, k, 100 + k);
      break;
    case 't':
      p.f = w->pool->enqueue([k]() -> int { InTask in(k); throw 100 + k; });
      break;
    case 's':
      p.f = w->pool->enqueue([k, w] { InTask in(k); w->go.set_value(7); return 100 + k; });
      break;
    case 'w':
      p.f = w->pool->enqueue([k, w] { InTask in(k); return w->gone.get() + 93 + k; });
      break;
    case 'n':
    case 'm':
      p.f = w->pool->enqueue([k, w, kind] { InTask in(k); return Inner(w, kind == 'm') == 0 ? 100 + k : -1; });
      break;
  }
  if (kind == 'd') {
    p.dropped = true;
    p.f = std::future<int>();
  }
  out->push_back(std::move(p));
}

static void Collect(std::vector<Pending>* v) {
  for (Pending& p : *v) {
    if (p.dropped) continue;
    if (p.kind == 'v') {
      p.g.get();
      sched::Untracked u;
      if (!book->runs[p.k]) sched::Failure("not run", "a result is available but the task did not run");
      continue;
    }
    int got = 0;
    bool thrown = false;
    try {
      got = p.f.get();
    } catch (int x) {
      got = x;
      thrown = true;
    } catch (const std::exception&) {
      sched::Failure("result lost", "the future of an accepted task holds neither its result nor its exception");
    }
    sched::Untracked u;
    if (thrown != (p.kind == 't')) sched::Failure("wrong result", "exception instead of a result or the other way round");
    if (got != 100 + p.k && !((p.kind == 'n' || p.kind == 'm') && got == -1)) sched::Failure("wrong result", "a future holds the wrong result");
    if (!book->runs[p.k]) sched::Failure("not run", "a result is available but the task did not run");
  }
  sched::Out("c", 1);
}

static void Body(void* arg) {
  const Scenario& sc = *static_cast<Scenario*>(arg);
  static Book the_book;
  book = &the_book;
  if (ThreadPool::get_thread_id() != 0) sched::Failure("worker index", "the index of the main thread is not 0");
  sched::Begin();
  {
    for (int round = 0; round < sc.pools; ++round) {
      the_book = Book{};
      the_book.workers = sc.workers;
      World w;
      std::vector<Pending> mine, theirs;
      w.pool.reset(new ThreadPool(sc.workers));
      std::thread other;
      if (!sc.other_tasks.empty())
        other = std::thread([&] {
          for (char c : sc.other_tasks) Submit(&w, c, &theirs);
        });
      for (char c : sc.main_tasks) Submit(&w, c, &mine);
      if (sc.wait) Collect(&mine);
      if (other.joinable()) other.join();
      if (sc.wait) Collect(&theirs);
      // not reset(): tasks may still use the pool while it shuts down
      the_book.closing = true;
      w.pool->~ThreadPool();
      {
        sched::Untracked u;
        for (int k = 0; k < book->n; ++k) {
          if (book->accepted[k] && !book->done[k]) sched::Failure("task lost", "the pool was destroyed but an accepted task has not finished");
          if (!book->accepted[k] && book->runs[k]) sched::Failure("refused task ran", "a refused task ran");
        }
        if (book->running) sched::Failure("task running", "a task is still running");
      }
      operator delete(w.pool.release());
      if (!sc.wait) {
        Collect(&mine);
        Collect(&theirs);
      }
    }
  }
  sched::WaitAll();
  sched::End();
}

struct Seen {
  vf::Ctx* c;
  std::string name;
  int fails{0};
};
static bool On(void* a, const sched::Run& r) {
  Seen& s = *static_cast<Seen*>(a);
  if (s.c->slot) s.c->slot->tick = s.c->slot->tick + 1;
  ++s.c->traces;
  ++s.c->evals;
  if (r.fail) {
    s.c->Fail(r.fail, std::string(r.msg) + " in " + s.name + " schedule " + r.schedule);
    return ++s.fails < 2;
  }
  return true;
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  d.rule = "one transition = one synchronisation operation of the real thread pool (or of its client) at which the scheduler decided who goes on";
  auto v = std::make_shared<std::vector<std::pair<Scenario, std::pair<int, int>>>>();
  // A combination of tasks can always finish: a task that waits comes after
  // the one it waits for in the same submitter's order, or there is a worker
  // to spare.
  auto ok = [](const Scenario& s) {
    const std::string all = s.main_tasks + s.other_tasks;
    const int ns = std::count(all.begin(), all.end(), 's'), nw = std::count(all.begin(), all.end(), 'w'),
              nm = std::count(all.begin(), all.end(), 'm');
    if (ns > 1) return false;
    if (nw && !ns) return false;
    if (nw) {
      if (nw + nm + 1 > s.workers) {
        const size_t i = s.main_tasks.find('s'), j = s.main_tasks.find('w');
        if (nm || i == std::string::npos || j < i || s.other_tasks.find('w') != std::string::npos) return false;
      }
    }
    if (nm && nm + nw + 1 > s.workers) return false;
    return true;
  };
  auto words = [](const std::string& alpha, int len) {
    std::vector<std::string> r{""}, all;
    for (int i = 0; i < len; ++i) {
      std::vector<std::string> n;
      for (auto& w : r)
        for (char c : alpha) n.push_back(w + c);
      r = n;
      all.insert(all.end(), r.begin(), r.end());
    }
    return all;
  };
  // first: preemptions, or delays if `delay`
  auto add = [&](Scenario s, int bound, int spur, bool delay) {
    if (ok(s)) v->push_back({s, {delay ? -bound : bound, spur}});
  };
  for (bool wait : {true, false}) {
    for (int wk = 1; wk <= 3; ++wk) {
      add({wk, "", "", wait, 1}, wk == 3 && !th ? 0 : 2, 1, false);
      // every free choice at blocking points, one preemption
      if (wk < 3 || th)
        for (auto& m : words("rvatswnmd", 1)) add({wk, m, "", wait, 1}, wk == 3 ? 1 : th ? 3 : wk == 2 ? 1 : 2, wk == 1, false);
      if (wk < 3)
        for (auto& m : words(wk == 1 || th ? "rtswnm" : "rn", 2)) add({wk, m, "", wait, 1}, th ? 2 : 1, 0, false);
      // any number of choices limited by delays
      for (auto& m : words(wk == 3 && !th ? "rswn" : "rvatswnmd", 2)) add({wk, m, "", wait, 1}, th ? 3 : 2, th || wk == 1, true);
      for (auto& m : words("rswnm", 3))
        if (m.size() == 3) add({wk, m, "", wait, 1}, th ? 2 : 1, 0, true);
      for (auto& m : words("rtswn", 1))
        for (auto& o : words("rtswn", 1)) add({wk, m, o, wait, 1}, th ? 3 : 2, th, true);
      if (th)
        for (auto& m : words("rtswn", 2))
          for (auto& o : words("rsn", 1)) add({wk, m, o, wait, 1}, 2, 0, true);
      for (auto& m : words("rn", 1)) add({wk, m, "", wait, 2}, th ? 3 : 2, 0, true);
    }
  }
  d.Add("pool", v->size(), [v](int64_t u, vf::Ctx& c) {
    auto& it = (*v)[u];
    Scenario sc = it.first;
    const std::string name = Name(sc);
    c.Note(name);
    Seen s{&c, name};
    sched::Config cfg;
    if (it.second.first < 0) cfg.delays = -it.second.first;
    else cfg.preemptions = it.second.first;
    cfg.spurious = it.second.second;
    const sched::Stats st = sched::Explore(cfg, Body, &sc, On, &s);
    c.transitions += st.steps;
    c.states += st.choices;
    c.extra["schedules"] += st.schedules;
    c.extra["memory accesses checked"] += st.accesses;
    c.extra["scenarios"] += 1;
    c.extra["shared synchronisation locations"] += st.shared;
    ++c.nontrivial;
    c.Outcome(name);
    if (!st.complete && !s.fails) c.Fail("incomplete", "exploration stopped early in " + name);
    c.Sample(name + ": " + std::to_string(st.schedules) + " schedules");
    if (getenv("VF_V")) printf("%ld\t%s pre %d delays %d\n", st.schedules, name.c_str(), cfg.preemptions, cfg.delays);
  }, 900);
  d.bounds.push_back(std::string("1 to 3 workers; every sequence of up to 2 tasks of 9 kinds (returning, void, with arguments, throwing, waited for, waiting, submitting inside, submitting and waiting inside, future dropped) and 3 of 5 kinds; one or two submitters; results awaited first or pool destroyed at once; two pools in turn"));
  d.bounds.push_back(std::string("per schedule: at most ") + (th ? "3" : "2") + " delays (deviations from round robin; " + (th ? "2" : "1") + " with three tasks) and 1 spurious wakeup; additionally every choice at blocking points with " + (th ? "1 to 3" : "1 or 2") + " preemptions for one task, and two tasks on one or two workers");
  return d.Run();
}
