SY = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
TP = 'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h'
TSAN = '-fsanitize=thread -g'
THR = '#include <thread>\n#include <atomic>\n'
TPD = '#include <cstdio>\n#include <chrono>\n#include <atomic>\n#include "ThreadPool/ThreadPool.h"\n#define CHECK(x) do { if (!(x)) { printf("violated: %s\\n", #x); fflush(stdout); _Exit(1); } } while (0)\nstatic void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }\n'
PLANTS = [
 dict(id='p11-rc-relaxed', prop='C17', edits=[(SY + 'symbolic_formula_cell.h', 'atomic_fetch_sub_explicit(&rc_, 1U, std::memory_order_acq_rel) == 1U', 'atomic_fetch_sub_explicit(&rc_, 1U, std::memory_order_relaxed) == 1U')],
  needs='two threads dropping their handles to one formula node', breaks='the releasing thread is not ordered after the other threads uses of the node',
  flags=TSAN,
  demo=THR + '''int main() { Variable x{"x"}, y{"y"}; for (int i = 0; i < 300; ++i) { Formula f = x + i < y && y < 3; Formula* a = new Formula(f); Formula* b = new Formula(f); f = Formula::True();
  auto w = [&](Formula* p) { volatile bool t = p->EqualTo(Formula::True()); volatile size_t n = p->GetFreeVariables().size(); delete p; };
  thread s(w, a), t(w, b); s.join(); t.join(); } return 0; }\n'''),
 dict(id='p12-sole-owner', prop='C17', edits=[(SY + 'symbolic_expression_cell.h', '''    if (atomic_fetch_sub_explicit(&rc_, 1U, std::memory_order_acq_rel) == 1U) {
      delete this;
    }''', '''    if (use_count() == 1U) {
      // The only owner: there is nobody to tell.
      delete this;
    } else {
      atomic_fetch_sub_explicit(&rc_, 1U, std::memory_order_acq_rel);
    }''')],
  needs='two threads dropping the last two handles to a node at the same time', breaks='both see two owners and nobody releases the node',
  demo=THR + '''#include <cstdlib>
#include <new>
static atomic<long> live{0};
void* operator new(size_t n) { ++live; return malloc(n); }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
int main() { Variable x{"x"}, y{"y"}; const int N = 20000; vector<Expression> a, b; a.reserve(N); b.reserve(N);
  for (int round = 0; round < 20; ++round) { const long before = live;
    for (int i = 0; i < N; ++i) { a.push_back(sin(x + i)); b.push_back(a.back()); }
    atomic<int> at[2]; at[0] = at[1] = 0;
    auto w = [&](vector<Expression>& v, int me) { for (int i = 0; i < N; ++i) { at[me] = i; while (at[1 - me] < i) {} Expression t{std::move(v[i])}; } at[me] = N; };
    thread s([&] { w(a, 0); }), t([&] { w(b, 1); }); s.join(); t.join(); a.clear(); b.clear(); CHECK(live <= before + 64); }
  return 0; }\n'''),
 dict(id='p13-eval-memo', prop='C17', edits=[
   (SY + 'symbolic_expression_cell.cc', '''  const double v{e_.Evaluate(env)};
  return DoEvaluate(v);''', '''  const double v{e_.Evaluate(env)};
  // The same function at the same point as the last time is common during
  // branch-and-prune.
  static ExpressionKind memo_kind{};
  static double memo_arg{std::numeric_limits<double>::quiet_NaN()};
  static double memo_val{};
  if (memo_kind != get_kind() || memo_arg != v || v == 0.0) {
    const double r{DoEvaluate(v)};
    memo_kind = get_kind();
    memo_arg = v;
    memo_val = r;
    return r;
  }
  return memo_val;''')],
  needs='two threads evaluating unary terms at different points', breaks='one thread gets the value the other thread asked for; data race',
  flags=TSAN,
  demo=THR + '''int main() { Variable x{"x"}; Expression e = sin(x), f = e;
  auto w = [&](const Expression& g, double p) { for (int i = 0; i < 200; ++i) { volatile double d = g.Evaluate({{x, p}}); } };
  thread s([&] { w(e, 1); }), t([&] { w(f, 2); }); s.join(); t.join(); return 0; }\n'''),
 dict(id='p14-next-id', prop='C17', edits=[(SY + 'symbolic_variable.cc', '  return next_id.access()++;', '''  const Id id{next_id.access()};
  next_id.access() = id + 1;
  return id;''')],
  needs='two variables created at the same time', breaks='two variables get the same identifier',
  demo=THR + '''int main() { const int N = 20000; for (int r = 0; r < 30; ++r) { vector<Variable> a, b; a.reserve(N); b.reserve(N); atomic<int> go{0};
  auto w = [&](vector<Variable>& v) { ++go; while (go < 2) {} for (int i = 0; i < N; ++i) v.emplace_back("v"); };
  thread s([&] { w(a); }), t([&] { w(b); }); s.join(); t.join(); set<size_t> ids; for (auto& v : a) ids.insert(v.get_id()); for (auto& v : b) ids.insert(v.get_id()); CHECK(ids.size() == 2 * N); } return 0; }\n'''),
 dict(id='p15-notify-first', prop='C18', edits=[(TP, '''    tasks.emplace([task]() { (*task)(); });
  }
  condition.notify_one();''', '''    const bool idle = tasks.empty();
    tasks.emplace([task]() { (*task)(); });
    // The workers are awake already if there were tasks left.
    if (!idle) return res;
  }
  condition.notify_one();''')],
  needs='two tasks submitted before a worker takes the first, where one waits for the other', breaks='the second worker is never woken: deadlock',
  sym=False, raw=True, srcs=['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc'],
  demo=TPD + '''int main() { for (int r = 0; r < 2000; ++r) { ThreadPool* p = new ThreadPool(2); nap(r < 50 ? 1 : 0); std::promise<int> go; auto f = go.get_future().share();
  auto a = p->enqueue([f] { return f.get(); }); auto b = p->enqueue([&] { go.set_value(1); });
  CHECK(a.wait_for(std::chrono::seconds(5)) == std::future_status::ready); delete p; } return 0; }\n'''),
 dict(id='p16-stop-first', prop='C18', edits=[(TP, 'if (this->stop && this->tasks.empty()) return;', '''if (this->stop) {
            // Leave the rest to the workers which are still busy.
            if (this->tasks.size() < this->workers.size()) return;
          }'''), (TP, "          task = std::move(this->tasks.front());", "          if (this->tasks.empty()) return;\n          task = std::move(this->tasks.front());")],
  needs='the pool is destroyed while fewer tasks than workers are queued', breaks='accepted tasks are dropped',
  sym=False, raw=True, srcs=['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc'],
  demo=TPD + '''int main() { std::atomic<int> n{0}; { ThreadPool p(2); for (int i = 0; i < 3; ++i) p.enqueue([&] { nap(50); ++n; }); nap(10); } CHECK(n == 3); return 0; }\n'''),
 dict(id='p17-stop-unlocked', prop='C18', edits=[(TP, '''  {
    std::unique_lock<std::mutex> lock(queue_mutex);
    stop = true;
  }
  condition.notify_all();''', '''  // No lock is needed for a flag.
  stop = true;
  condition.notify_all();'''), (TP, '  bool stop;\n', '  std::atomic<bool> stop;\n')],
  needs='the destructor runs between a worker finding the queue empty and going to sleep', breaks='the wakeup is lost and the destructor waits forever',
  sym=False, raw=True, srcs=['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc'], flags='-O2',
  demo=TPD + '''#include <condition_variable>
#include <dlfcn.h>
// Holds up the first worker for a moment between the check and going to sleep.
static std::atomic<int> delay{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = reinterpret_cast<int (*)(pthread_cond_t*, pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
  if (delay.exchange(0)) nap(100);
  return real(c, m);
}
int main() { delay = 1; std::thread t([] { ThreadPool* p = new ThreadPool(1); nap(30); delete p; delay = -7; });
  for (int i = 0; i < 300 && delay != -7; ++i) nap(10); CHECK(delay == -7); t.join(); return 0; }\n''', libs='-ldl'),
 dict(id='p18-refuse-late', prop='C18', edits=[(TP, '''    std::unique_lock<std::mutex> lock(queue_mutex);

    // don't allow enqueueing after stopping the pool
    if (stop) throw''', '''    std::unique_lock<std::mutex> lock(queue_mutex);

    // don't allow enqueueing after stopping the pool, when nobody is left to
    // run the task
    if (stop && tasks.empty()) throw''')],
  needs='a task submits another one while the pool shuts down with work still queued', breaks='a task submitted after shutdown had begun is accepted',
  sym=False, raw=True, srcs=['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc'],
  demo=TPD + '''int main() { std::atomic<int> refused{0}; { ThreadPool p(1); p.enqueue([&] { nap(60); try { p.enqueue([] {}); } catch (const std::runtime_error&) { ++refused; } }); p.enqueue([] {}); nap(10); } CHECK(refused == 1); return 0; }\n'''),
]
