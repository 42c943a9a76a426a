// C23: scope guards under every nesting and exit path; timers under a virtual
// clock over every history.
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <cfenv>
#include <cstring>
#include <sstream>
#include "dreal/util/precision_guard.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/util/signal_handler_guard.h"
#include "dreal/util/timer.h"
#include "vf.h"

// ---- virtual clock: the C++ clocks read time through clock_gettime ----
static bool g_virtual = false;
static int64_t g_now = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!g_virtual) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  ts->tv_sec = g_now / 1000000000;
  ts->tv_nsec = g_now % 1000000000;
  return 0;
}

static volatile std::atomic_bool g_f1{false}, g_f2{false};
static volatile int g_hits[4];
static void H1(int) { g_hits[0] = g_hits[0] + 1; g_f1 = true; }
static void H2(int) { g_hits[1] = g_hits[1] + 1; g_f2 = true; }
static void HOld(int) { g_hits[2] = g_hits[2] + 1; }
static void HInfo(int, siginfo_t*, void*) { g_hits[3] = g_hits[3] + 1; }

enum Kind { kPrec3, kPrecDef, kUp, kDown, kZero, kSig1, kSig2, kSigInt, kKinds };
static const char* kName[] = {"precision(3)", "precision()", "up", "down", "zero", "USR1->H1", "USR1->H2", "INT->H1"};
struct Snap {
  std::streamsize p;
  int round;
  struct sigaction usr, intr;
  std::ios_base::fmtflags fl;
};
static std::ostringstream* g_os;
static Snap Take() {
  Snap s;
  s.p = g_os->precision();
  s.fl = g_os->flags();
  s.round = fegetround();
  sigaction(SIGUSR1, nullptr, &s.usr);
  sigaction(SIGINT, nullptr, &s.intr);
  return s;
}
static bool SameSig(const struct sigaction& a, const struct sigaction& b) {
  for (int i = 1; i < 32; ++i) if (sigismember(&a.sa_mask, i) != sigismember(&b.sa_mask, i)) return false;
  return a.sa_handler == b.sa_handler && (a.sa_flags & ~0x04000000) == (b.sa_flags & ~0x04000000);
}
struct Boom { int to; };
static vf::Ctx* g_c;
static std::string g_id;
static void Bad(const std::string& w) { g_c->Fail(w + " " + g_id, g_id + ": " + w); }
static bool g_fired[2];  // flags expected to be set

// act at the bottom: 0 nothing 1 raise USR1 2 raise INT 3 change precision 4 change rounding 5 set flags by hand
// exit: -1 normal, k>=0 throw an exception caught just outside level k, -2 early return
static void Nest(const std::vector<int>& g, size_t i, int act, int exit);
static void Body(const std::vector<int>& g, size_t i, int act, int exit) {
  if (i + 1 < g.size()) { Nest(g, i + 1, act, exit); return; }
  switch (act) {
    case 1: raise(SIGUSR1); break;
    case 2: raise(SIGINT); break;
    case 3: g_os->precision(11); break;
    case 4: fesetround(FE_TOWARDZERO); break;
    case 5: g_f1 = true; g_f2 = true; break;
    case 6: { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(SIGUSR1, &a, nullptr); break; }
    default: break;
  }
  if (exit >= 0) throw Boom{exit};
}
static void Guarded(const std::vector<int>& g, size_t i, int act, int exit) {
  const int k = g[i];
  switch (k) {
    case kPrec3: { dreal::PrecisionGuard q(g_os, 3); if (g_os->precision() != 3) Bad("precision not set"); Body(g, i, act, exit); if (exit == -2) return; break; }
    case kPrecDef: { dreal::PrecisionGuard q(g_os); if (g_os->precision() != 17) Bad("default precision not set"); Body(g, i, act, exit); if (exit == -2) return; break; }
    case kUp: { dreal::RoundingModeGuard q(FE_UPWARD); if (fegetround() != FE_UPWARD) Bad("rounding not set"); Body(g, i, act, exit); if (exit == -2) return; break; }
    case kDown: { dreal::RoundingModeGuard q(FE_DOWNWARD); if (fegetround() != FE_DOWNWARD) Bad("rounding not set"); Body(g, i, act, exit); if (exit == -2) return; break; }
    case kZero: { dreal::RoundingModeGuard q(FE_TOWARDZERO); if (fegetround() != FE_TOWARDZERO) Bad("rounding not set"); Body(g, i, act, exit); if (exit == -2) return; break; }
    case kSig1: case kSig2: case kSigInt: {
      dreal::SignalHandlerGuard q(k == kSigInt ? SIGINT : SIGUSR1, k == kSig2 ? H2 : H1, k == kSig2 ? &g_f2 : &g_f1);
      struct sigaction a;
      sigaction(k == kSigInt ? SIGINT : SIGUSR1, nullptr, &a);
      if (a.sa_handler != (k == kSig2 ? H2 : H1)) Bad("handler not installed");
      Body(g, i, act, exit);
      if (exit == -2) return;
      break;
    }
  }
}
static void Nest(const std::vector<int>& g, size_t i, int act, int exit) {
  const Snap before = Take();
  auto check = [&] {
    const Snap s = Take();
    ++g_c->evals;
    const bool p = g[i] == kPrec3 || g[i] == kPrecDef, r = g[i] == kUp || g[i] == kDown || g[i] == kZero, u = g[i] == kSig1 || g[i] == kSig2, n = g[i] == kSigInt;
    if (p && s.p != before.p) Bad(vf::Cat("precision not restored at level ", i));
    if (p && s.fl != before.fl) Bad("format flags changed");
    if (r && s.round != before.round) Bad(vf::Cat("rounding mode not restored at level ", i));
    if (u && !SameSig(s.usr, before.usr)) Bad(vf::Cat("USR1 handler not restored at level ", i));
    if (n && !SameSig(s.intr, before.intr)) Bad(vf::Cat("INT handler not restored at level ", i));
    if (g[i] == kSig2 && g_f2) Bad("flag not cleared");
    if ((g[i] == kSig1 || n) && g_f1) Bad("flag not cleared");
  };
  try {
    Guarded(g, i, act, exit);
  } catch (const Boom& b) {
    check();
    if (b.to == static_cast<int>(i)) return;
    throw;
  }
  check();
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const int depth = d.thorough ? 4 : 3;
  d.rule = "case = one nesting of guards with an action at the bottom and an exit path, executed for real and compared level by level with the state at entry; or one timer history under a virtual clock";
  d.bounds = {vf::Cat("nestings of up to ", depth, " guards of ", int{kKinds}, " kinds x 7 actions x every exit (normal, return, exception to each level) x 4 initial states"), "timer histories of length 6 over start/pause/resume/guard operations and two clock steps, from two initial clocks"};
  std::vector<std::vector<int>> nests;
  std::function<void(std::vector<int>)> gen = [&](std::vector<int> p) {
    if (!p.empty()) nests.push_back(p);
    if (static_cast<int>(p.size()) == depth) return;
    for (int k = 0; k < kKinds; ++k) { auto q = p; q.push_back(k); gen(q); }
  };
  gen({});
  d.Add("guards", nests.size(), [&](int64_t u, vf::Ctx& c) {
    const auto& g = nests[u];
    g_c = &c;
    for (int init = 0; init < 4; ++init)
      for (int act = 0; act < 7; ++act) {
        for (int exit = -2; exit < static_cast<int>(g.size()); ++exit) {
          // a signal may be raised only where a handler or SIG_IGN or an old handler is in force
          std::ostringstream os;
          g_os = &os;
          os.precision(init == 0 ? 6 : init == 1 ? 17 : 2);
          if (init & 1) os << std::fixed;
          fesetround(init == 2 ? FE_DOWNWARD : FE_TONEAREST);
          struct sigaction a;
          memset(&a, 0, sizeof a);
          if (init == 0) { a.sa_handler = SIG_IGN; }
          else if (init == 1) { a.sa_handler = HOld; a.sa_flags = SA_NODEFER; sigaddset(&a.sa_mask, SIGUSR2); }
          else if (init == 2) { a.sa_sigaction = HInfo; a.sa_flags = SA_SIGINFO | SA_RESTART; }
          else a.sa_handler = SIG_DFL;
          sigaction(SIGUSR1, &a, nullptr);
          sigaction(SIGINT, &a, nullptr);
          bool usr = false, intr = false;
          int last = -1;
          for (int k : g) { usr = usr || k == kSig1 || k == kSig2; intr = intr || k == kSigInt; if (k == kSig1 || k == kSig2) last = k; }
          if (init == 3 && ((act == 1 && !usr) || (act == 2 && !intr))) continue;
          g_id = vf::Cat("init", init);
          for (int k : g) g_id += std::string(" ") + kName[k];
          g_id += vf::Cat(" act", act, " exit", exit);
          c.Note(g_id);
          g_f1 = false;
          g_f2 = false;
          memset(const_cast<int*>(g_hits), 0, sizeof g_hits);
          ++c.transitions;
          try { Nest(g, 0, act, exit); } catch (const Boom&) { Bad("exception escaped"); }
          if (act == 1 && usr && g_hits[last == kSig2 ? 1 : 0] != 1) Bad("the innermost handler did not receive the signal");
          if (act == 1 && !usr && init == 1 && g_hits[2] != 1) Bad("old handler lost");
          if (act == 2 && intr && g_hits[0] != 1) Bad("the INT handler did not receive the signal");
          if (act && exit != -1) ++c.nontrivial;
          c.Outcome(vf::Cat(g_hits[0], g_hits[1], g_hits[2], g_hits[3]));
          ++c.traces;
        }
      }
    fesetround(FE_TONEAREST);
    c.State(g_id);
    c.Sample(g_id);
  });
  // ---- timers ----
  struct TS { bool run{false}; int64_t acc{0}, since{0}; };
  static const char* tn[] = {"start", "pause", "resume", "tick7", "tick1s", "guard(start){tick}", "guard(nostart){tick}", "guard(off){tick}", "guard{pause,tick,resume,tick}", "guard throw", "copy", "guard(nostart){resume,tick}"};
  const int nt = 12;
  const int td = d.thorough ? 6 : 5;
  d.Add("timer", nt * nt, [&](int64_t u, vf::Ctx& c) {
    for (int64_t base : {int64_t{0}, int64_t{1700000000123456789}}) {
      std::vector<int> path;
      struct S { dreal::Timer t; TS m; int64_t now; };
      auto id = [&] { std::string s; for (int p : path) s += std::string(s.empty() ? "" : ", ") + tn[p]; return s; };
      auto start = [](TS* m, int64_t now) { m->acc = 0; m->since = now; m->run = true; };
      auto pause = [](TS* m, int64_t now) { if (m->run) { m->acc += now - m->since; m->run = false; } };
      auto resume = [](TS* m, int64_t now) { if (!m->run) { m->since = now; m->run = true; } };
      std::function<void(const S&, int)> step = [&](const S& st, int o) {
        path.push_back(o);
        S nx = st;
        g_virtual = true;
        g_now = nx.now;
        switch (o) {
          case 0: nx.t.start(); start(&nx.m, g_now); break;
          case 1: nx.t.pause(); pause(&nx.m, g_now); break;
          case 2: nx.t.resume(); resume(&nx.m, g_now); break;
          case 3: g_now += 7; break;
          case 4: g_now += 1000000000; break;
          case 5: { dreal::TimerGuard q(&nx.t, true); resume(&nx.m, g_now); if (!nx.t.is_running()) c.Fail("guard start " + id(), "guard does not start the timer: " + id()); g_now += 11; } pause(&nx.m, g_now); break;
          case 6: { dreal::TimerGuard q(&nx.t, true, false); if (nx.t.is_running() != nx.m.run) c.Fail("guard nostart " + id(), "guard(start_timer=false) changed the timer: " + id()); g_now += 11; } pause(&nx.m, g_now); break;
          case 7: { dreal::TimerGuard q(&nx.t, false); q.pause(); q.resume(); g_now += 11; } break;
          case 8: { dreal::TimerGuard q(&nx.t, true); resume(&nx.m, g_now); g_now += 2; q.pause(); pause(&nx.m, g_now); if (nx.t.is_running()) c.Fail("guard pause " + id(), "guard pause ignored: " + id()); g_now += 5; q.resume(); resume(&nx.m, g_now); g_now += 3; } pause(&nx.m, g_now); break;
          case 9: try { dreal::TimerGuard q(&nx.t, true); resume(&nx.m, g_now); g_now += 13; throw 1; } catch (int) {} pause(&nx.m, g_now); break;
          case 10: { dreal::Timer t(nx.t); dreal::Timer t2; t2 = t; nx.t = t2; t.start(); break; }
          case 11: { dreal::TimerGuard q(&nx.t, true, false); q.resume(); resume(&nx.m, g_now); g_now += 11; } pause(&nx.m, g_now); break;
        }
        nx.now = g_now;
        const int64_t want = nx.m.acc + (nx.m.run ? nx.now - nx.m.since : 0);
        const int64_t got = std::chrono::duration_cast<std::chrono::nanoseconds>(nx.t.elapsed()).count();
        const double secs = nx.t.seconds();
        const bool running = nx.t.is_running();
        g_virtual = false;
        ++c.transitions;
        ++c.evals;
        if (running != nx.m.run) c.Fail("running " + id(), vf::Cat("after ", id(), " the timer is ", running ? "running" : "paused"));
        if (got != want) c.Fail("elapsed " + id(), vf::Cat("after ", id(), " elapsed is ", got, " ns, expected ", want));
        if (std::abs(secs - static_cast<double>(want) / 1e9) > 1e-9 * (1 + secs)) c.Fail("seconds " + id(), vf::Cat("after ", id(), " seconds() is ", secs));
        if (nx.m.run) ++c.nontrivial;
        c.State(vf::Cat(nx.m.run, want));
        if (static_cast<int>(path.size()) < td) for (int p = 0; p < nt; ++p) step(nx, p);
        else ++c.traces;
        path.pop_back();
      };
      g_virtual = true;
      g_now = base;
      S s{dreal::Timer(), TS(), base};
      g_virtual = false;
      if (s.t.is_running()) c.Fail("fresh", "a new timer is running");
      path.clear();
      const int a = u / nt, b = u % nt;
      // replay the first operation, then explore from the second
      std::function<void(const S&, int)> full = step;
      const int keep = td;
      (void)keep;
      path.push_back(a);
      S n1 = s;
      g_virtual = true;
      g_now = base;
      bool skip = false;
      switch (a) {
        case 0: n1.t.start(); start(&n1.m, g_now); break;
        case 1: n1.t.pause(); break;
        case 2: n1.t.resume(); resume(&n1.m, g_now); break;
        case 3: g_now += 7; n1.now = g_now; break;
        default: skip = b != 0; break;
      }
      g_virtual = false;
      if (a <= 3) step(n1, b);
      else if (!skip) { path.pop_back(); step(s, a); }
      c.Sample(std::string(tn[a]) + ", " + tn[b]);
    }
  });
  return d.Run();
}
