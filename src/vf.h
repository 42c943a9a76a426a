// Exhaustive-enumeration driver shared by all harnesses.
//
// A harness registers stages.  A stage is a finite, deterministic list of
// units (0..count-1); running a unit executes the real dreal code on one
// slice of the bounded space and compares it with a reference.  Units are
// distributed over forked workers, so a crash or a hang of the code under
// test is attributed to the unit (and the step inside it) and the rest of the
// space is still explored.  Nothing is sampled: every unit of every stage is
// run unless the wall-clock cap is hit, which is reported as such.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h, s.size());
}

inline std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

struct Slot {  // shared with the parent
  volatile int64_t stage;
  volatile int64_t unit;
  volatile int64_t tick;  // increases with every unit
  char note[1024];
};

class Ctx {
 public:
  bool thorough{false};
  // counters
  uint64_t states{0};       // distinct states expanded (exact, per stage, when the
                            // stage dedups itself) -- see also AddState
  uint64_t transitions{0};  // operations applied to the implementation
  uint64_t traces{0};       // complete traces compared with the reference
  uint64_t evals{0};        // individual comparisons with the reference
  uint64_t nontrivial{0};
  std::unordered_set<uint64_t> state_hashes;
  std::unordered_set<uint64_t> outcome_hashes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> extra;
  Slot* slot{nullptr};

  void Note(const std::string& s) {
    if (!slot) return;
    const size_t n = std::min(s.size(), sizeof(slot->note) - 1);
    memcpy(slot->note, s.data(), n);
    slot->note[n] = 0;
  }
  void State(const std::string& s) { state_hashes.insert(HashStr(s)); }
  void StateHash(uint64_t h) { state_hashes.insert(h); }
  void Outcome(const std::string& s) { outcome_hashes.insert(HashStr(s)); }
  void Sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s);
  }
  void Fail(const std::string& key, const std::string& msg) {
    ++nfails;
    int same = 0;
    for (const auto& f : fails) same += f.key == key;
    if (same < 2 && fails.size() < 200) fails.push_back({key, msg});
  }
  struct F {
    std::string key, msg;
  };
  std::vector<F> fails;
  uint64_t nfails{0};
};

struct Stage {
  std::string name;
  int64_t count;
  std::function<void(int64_t, Ctx&)> run;
  int unit_timeout_s;
};

class Driver {
 public:
  std::vector<Stage> stages;
  std::string rule;
  std::vector<std::string> bounds;
  bool thorough{false};
  bool crash_is_violation{true};

  Driver(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (int i = 1; i < argc; ++i) {
      const std::string a = argv[i];
      if (a == "--thorough") thorough = true;
      else if (a == "--out") out_ = argv[++i];
      else if (a == "--jobs") jobs_ = atoi(argv[++i]);
      else if (a == "--deadline") deadline_ = atof(argv[++i]);
      else if (a == "--stage") only_stage_ = argv[++i];
      else if (a == "--unit") only_unit_ = atoll(argv[++i]);
      else if (a == "--list") list_ = true;
      else args.push_back(a);
    }
  }
  std::vector<std::string> args;

  void Add(const std::string& name, int64_t count,
           std::function<void(int64_t, Ctx&)> run, int unit_timeout_s = 120) {
    stages.push_back({name, count, std::move(run), unit_timeout_s});
  }

  int Run() {
    if (list_) {
      for (auto& s : stages) printf("%s %ld\n", s.name.c_str(), s.count);
      return 0;
    }
    const auto t0 = std::chrono::steady_clock::now();
    char tmpl[] = "/tmp/vfXXXXXX";
    if (!mkdtemp(tmpl)) abort();
    dir_ = tmpl;
    slots_ = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * (jobs_ + 1),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    // next unit counter, shared
    next_ = static_cast<int64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    // flatten
    for (size_t s = 0; s < stages.size(); ++s) {
      if (!only_stage_.empty() && stages[s].name != only_stage_) continue;
      for (int64_t u = 0; u < stages[s].count; ++u) {
        if (only_unit_ >= 0 && u != only_unit_) continue;
        flat_.push_back({static_cast<int>(s), u});
      }
    }
    struct W {
      pid_t pid;
      int64_t tick;
      std::chrono::steady_clock::time_point since;
    };
    std::vector<W> ws(jobs_);
    int gen = 0;
    bool stop_spawn = false;
    auto spawn = [&](int k) {
      const int g = gen++;
      slots_[k].stage = -1;
      slots_[k].tick = 0;
      slots_[k].note[0] = 0;
      const pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Worker(k, g);
        _exit(0);
      }
      ws[k] = {p, 0, std::chrono::steady_clock::now()};
    };
    for (int k = 0; k < jobs_; ++k) spawn(k);
    int live = jobs_;
    while (live > 0) {
      usleep(5000);
      const auto now = std::chrono::steady_clock::now();
      const double el = std::chrono::duration<double>(now - t0).count();
      if (deadline_ > 0 && el > deadline_) {
        *(next_ + 1) = 1;  // tell the workers to stop
        capped_ = true;
      }
      for (int k = 0; k < jobs_; ++k) {
        if (ws[k].pid <= 0) continue;
        int st = 0;
        const pid_t r = waitpid(ws[k].pid, &st, WNOHANG);
        if (r == 0) {
          if (slots_[k].tick != ws[k].tick) {
            ws[k].tick = slots_[k].tick;
            ws[k].since = now;
          } else if (slots_[k].stage >= 0) {
            const double q =
                std::chrono::duration<double>(now - ws[k].since).count();
            if (q > stages[slots_[k].stage].unit_timeout_s) {
              kill(ws[k].pid, SIGKILL);
              waitpid(ws[k].pid, &st, 0);
              Dead(k, "hang: no progress for " +
                          std::to_string(static_cast<int>(q)) + " s");
              if (!stop_spawn && ndead_ < 12) spawn(k);
              else { ws[k].pid = -1; --live; capped_ = true; }
            }
          }
          continue;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          ws[k].pid = -1;
          --live;
          continue;
        }
        std::string why =
            WIFSIGNALED(st)
                ? "crash: " + std::string(strsignal(WTERMSIG(st)))
                : "crash: exit status " + std::to_string(WEXITSTATUS(st));
        Dead(k, why);
        if (ndead_ < 12) spawn(k);
        else { ws[k].pid = -1; --live; capped_ = true; }
      }
    }
    Collect(gen);
    const double wall = std::chrono::duration<double>(
                            std::chrono::steady_clock::now() - t0)
                            .count();
    Write(wall);
    const std::string cmd = "rm -rf " + dir_;
    if (system(cmd.c_str())) {}
    return fails_.empty() ? 0 : 1;
  }

 private:
  struct Item {
    int stage;
    int64_t unit;
  };
  struct Fail {
    std::string stage;
    int64_t unit;
    std::string key, msg;
  };

  void Worker(int k, int g) {
    // own stderr of the code under test: keep the last assertion message
    const std::string err = dir_ + "/err" + std::to_string(g);
    const int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) dup2(fd, 2);
    const int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0 && only_unit_ < 0) dup2(nul, 1);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    const std::string path = dir_ + "/res" + std::to_string(g);
    FILE* f = fopen(path.c_str(), "w");
    Slot* slot = &slots_[k];
    Ctx tot;
    std::vector<int64_t> done(stages.size(), 0);
    while (true) {
      if (*(next_ + 1)) break;
      const int64_t i = __sync_fetch_and_add(next_, 1);
      if (i >= static_cast<int64_t>(flat_.size())) break;
      const Item it = flat_[i];
      slot->stage = it.stage;
      slot->unit = it.unit;
      slot->tick = slot->tick + 1;
      slot->note[0] = 0;
      Ctx c;
      c.thorough = thorough;
      c.slot = slot;
      try {
        stages[it.stage].run(it.unit, c);
      } catch (const std::exception& e) {
        c.Fail("exception", std::string("unexpected exception: ") + e.what() +
                                " at: " + slot->note);
      } catch (...) {
        c.Fail("exception", std::string("unexpected exception at: ") + slot->note);
      }
      for (auto& x : c.fails)
        fprintf(f, "F\t%d\t%ld\t%s\t%s\n", it.stage, it.unit,
                Clean(x.key).c_str(), Clean(x.msg).c_str());
      fflush(f);
      tot.states += c.states;
      tot.transitions += c.transitions;
      tot.traces += c.traces;
      tot.evals += c.evals;
      tot.nontrivial += c.nontrivial;
      tot.nfails += c.nfails;
      for (auto& x : c.extra) tot.extra[x.first] += x.second;
      for (uint64_t h : c.state_hashes)
        tot.state_hashes.insert(Mix(h, it.stage));
      for (uint64_t h : c.outcome_hashes)
        tot.outcome_hashes.insert(Mix(h, it.stage));
      for (auto& s : c.samples)
        if (tot.samples.size() < 4) tot.samples.push_back(stages[it.stage].name + ": " + s);
      ++done[it.stage];
      // periodic dump so that a later crash does not lose the counts
      if (tot.evals + tot.transitions > 2000000 || c.state_hashes.size() > 200000) {
        Dump(f, tot, done);
        tot = Ctx();
        std::fill(done.begin(), done.end(), 0);
      }
    }
    slot->stage = -1;
    Dump(f, tot, done);
    fclose(f);
  }
  void Dump(FILE* f, Ctx& t, const std::vector<int64_t>& done) {
    fprintf(f, "C\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\n", t.states, t.transitions,
            t.traces, t.evals, t.nontrivial, t.nfails);
    for (auto& x : t.extra) fprintf(f, "X\t%s\t%lu\n", x.first.c_str(), x.second);
    for (auto& s : t.samples) fprintf(f, "S\t%s\n", Clean(s).c_str());
    for (uint64_t h : t.state_hashes) fprintf(f, "H\t%lx\n", h);
    for (uint64_t h : t.outcome_hashes) fprintf(f, "O\t%lx\n", h);
    for (size_t i = 0; i < done.size(); ++i)
      if (done[i]) fprintf(f, "D\t%lu\t%ld\n", i, done[i]);
    fflush(f);
  }
  static std::string Clean(std::string s) {
    for (char& c : s)
      if (c == '\t' || c == '\n' || c == '\r') c = ' ';
    if (s.size() > 3000) s.resize(3000);
    return s;
  }
  void Dead(int k, const std::string& why) {
    ++ndead_;
    const int64_t s = slots_[k].stage;
    std::string note = slots_[k].note;
    std::string where = s >= 0 ? stages[s].name : std::string("(outside a unit)");
    fails_.push_back({where, slots_[k].unit, why.substr(0, why.find(':')) + ": " + note,
                      why + " at: " + note});
    ++done_[s >= 0 ? s : 0];
  }
  void Collect(int gens) {
    std::set<uint64_t> st, oc;
    std::unordered_set<uint64_t> sth, och;
    for (int g = 0; g < gens; ++g) {
      std::ifstream f(dir_ + "/res" + std::to_string(g));
      std::string line;
      while (std::getline(f, line)) {
        if (line.empty()) continue;
        if (line[0] == 'H') sth.insert(strtoull(line.c_str() + 2, nullptr, 16));
        else if (line[0] == 'O') och.insert(strtoull(line.c_str() + 2, nullptr, 16));
        else {
          std::vector<std::string> p;
          std::string cur;
          for (char c : line) {
            if (c == '\t') { p.push_back(cur); cur.clear(); }
            else cur += c;
          }
          p.push_back(cur);
          if (p[0] == "C" && p.size() >= 7) {
            states_ += std::stoull(p[1]);
            transitions_ += std::stoull(p[2]);
            traces_ += std::stoull(p[3]);
            evals_ += std::stoull(p[4]);
            nontrivial_ += std::stoull(p[5]);
            nfails_ += std::stoull(p[6]);
          } else if (p[0] == "X" && p.size() >= 3) extra_[p[1]] += std::stoull(p[2]);
          else if (p[0] == "S" && p.size() >= 2) {
            const std::string stg = p[1].substr(0, p[1].find(':'));
            if (sample_n_[stg]++ < 2) samples_.push_back(p[1]);
          } else if (p[0] == "D" && p.size() >= 3) done_[atoi(p[1].c_str())] += atoll(p[2].c_str());
          else if (p[0] == "F" && p.size() >= 5 && key_n_[p[3]]++ < 20)
            fails_.push_back({stages[atoi(p[1].c_str())].name, atoll(p[2].c_str()), p[3], p[4]});
        }
      }
      // assertion text for crashes
      std::ifstream e(dir_ + "/err" + std::to_string(g));
      std::string l, last;
      while (std::getline(e, l))
        if (!l.empty() && err_.size() < 20) { if (l != last) err_.push_back(l); last = l; }
    }
    states_ += sth.size();
    outcomes_ = och.size();
  }
  void Write(double wall) {
    std::ostringstream o;
    o << "{\"states\":" << states_ << ",\"transitions\":" << transitions_
      << ",\"traces\":" << traces_ << ",\"evals\":" << evals_
      << ",\"nontrivial\":" << nontrivial_ << ",\"outcomes\":" << outcomes_
      << ",\"wall_s\":" << wall << ",\"capped\":" << (capped_ ? "true" : "false")
      << ",\"nfails\":" << nfails_ << ",\"rule\":\"" << Esc(rule) << "\",\"bounds\":[";
    for (size_t i = 0; i < bounds.size(); ++i)
      o << (i ? "," : "") << '"' << Esc(bounds[i]) << '"';
    o << "],\"stages\":{";
    bool first = true;
    for (size_t i = 0; i < stages.size(); ++i) {
      if (!only_stage_.empty() && stages[i].name != only_stage_) continue;
      o << (first ? "" : ",") << '"' << Esc(stages[i].name) << "\":{\"units\":"
        << stages[i].count << ",\"done\":" << done_[i] << "}";
      first = false;
    }
    o << "},\"extra\":{";
    first = true;
    for (auto& x : extra_) {
      o << (first ? "" : ",") << '"' << Esc(x.first) << "\":" << x.second;
      first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples_.size() && i < 30; ++i)
      o << (i ? "," : "") << '"' << Esc(samples_[i]) << '"';
    o << "],\"stderr\":[";
    for (size_t i = 0; i < err_.size(); ++i)
      o << (i ? "," : "") << '"' << Esc(err_[i]) << '"';
    o << "],\"fails\":[";
    for (size_t i = 0; i < fails_.size() && i < 2000; ++i)
      o << (i ? "," : "") << "{\"stage\":\"" << Esc(fails_[i].stage)
        << "\",\"unit\":" << fails_[i].unit << ",\"key\":\"" << Esc(fails_[i].key)
        << "\",\"msg\":\"" << Esc(fails_[i].msg) << "\"}";
    o << "]}\n";
    if (out_.empty()) std::cout << o.str();
    else std::ofstream(out_) << o.str();
  }

  std::string out_, only_stage_, dir_;
  int64_t only_unit_{-1};
  bool list_{false};
  int jobs_{8};
  double deadline_{0};
  Slot* slots_{nullptr};
  int64_t* next_{nullptr};
  std::vector<Item> flat_;
  std::vector<Fail> fails_;
  int ndead_{0};
  bool capped_{false};
  uint64_t states_{0}, transitions_{0}, traces_{0}, evals_{0}, nontrivial_{0}, nfails_{0}, outcomes_{0};
  std::map<std::string, uint64_t> extra_;
  std::map<std::string, int> sample_n_, key_n_;
  std::map<int64_t, int64_t> done_;
  std::vector<std::string> samples_, err_;
};

template <class... A>
std::string Cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  using X = int[];
  (void)X{0, ((void)(o << a), 0)...};
  return o.str();
}

}  // namespace vf
