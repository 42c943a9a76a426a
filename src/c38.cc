// BUILD: full
// C38: the command-line program does what its arguments say. The real
// dreal_main.cc is compiled here against a stand-in for the library that splits
// the arguments; every sequence of arguments within the bounds is run, and what
// reaches the readers (or what is printed, end to end) is compared with a
// table written from the documented usage.
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include "dreal/dr/run.h"
#include "dreal/smt2/run.h"
#include "dreal/util/filesystem.h"
#include "dreal/util/logging.h"
#include "vf.h"
namespace dreal {
void Smt2Seen(const std::string&, const Config&, bool, bool);
void DrSeen(const std::string&, const Config&, bool, bool);
}  // namespace dreal
#define RunSmt2 Smt2Seen
#define RunDr DrSeen
#define main dreal_entry
#include "dreal/dreal_main.cc"
#undef main
#undef RunSmt2
#undef RunDr
using std::string;
using std::vector;
namespace {
struct Call { bool any{false}; string reader, file; dreal::Config cfg; bool ds{false}, dp{false}; int level{-1}; int n{0}; };
Call call;
bool through = false;
void Seen(const char* r, const string& f, const dreal::Config& c, bool ds, bool dp) {
  call.any = true; ++call.n; call.reader = r; call.file = f; call.cfg = c; call.ds = ds; call.dp = dp;
  call.level = static_cast<int>(dreal::log()->level());
}
}  // namespace
namespace dreal {
void Smt2Seen(const string& f, const Config& c, bool ds, bool dp) { Seen("smt2", f, c, ds, dp); if (through) RunSmt2(f, c, ds, dp); }
void DrSeen(const string& f, const Config& c, bool ds, bool dp) { Seen("dr", f, c, ds, dp); if (through) RunDr(f, c, ds, dp); }
}  // namespace dreal
namespace {
struct R { int code{-1}; string out, err; bool thrown{false}; };
string dir;
string Joined(const vector<string>& a) {
  string s;
  for (auto& x : a) s += (s.empty() ? "" : " ") + x;
  for (size_t q; (q = s.find(dir)) != string::npos;) s.replace(q, dir.size(), "DIR");
  return s;
}
R Go(const vector<string>& args, const string& in = "") {
  call = Call{};
  vector<const char*> av{"dreal"};
  for (auto& a : args) av.push_back(a.c_str());
  std::ostringstream err, out;
  std::istringstream is(in);
  R r;
  const auto lv = dreal::log()->level();
  static FILE* tmp = std::tmpfile();
  int save = -1;
  std::streambuf* ob = nullptr;
  if (through) {  // the readers may print in either way
    std::cout.flush(); fflush(stdout);
    save = dup(1);
    if (ftruncate(fileno(tmp), 0)) {}
    lseek(fileno(tmp), 0, SEEK_SET);
    dup2(fileno(tmp), 1);
  } else {
    ob = std::cout.rdbuf(out.rdbuf());
  }
  std::streambuf* eb = std::cerr.rdbuf(err.rdbuf());
  std::streambuf* ib = std::cin.rdbuf(is.rdbuf());
  std::cin.clear();
  try {
    dreal::MainProgram m{static_cast<int>(av.size()), av.data()};
    r.code = m.Run();
  } catch (const std::exception& e) {
    r.thrown = true;
    r.err = e.what();
  }
  std::cin.rdbuf(ib);
  std::cerr.rdbuf(eb);
  if (through) {
    std::cout.flush(); fflush(stdout);
    dup2(save, 1); close(save);
    const off_t n = lseek(fileno(tmp), 0, SEEK_END);
    r.out.resize(n);
    if (n && pread(fileno(tmp), &r.out[0], n, 0) != n) r.out.clear();
  } else {
    std::cout.rdbuf(ob);
    r.out = out.str();
  }
  r.err += err.str();
  dreal::log()->set_level(lv);
  return r;
}
// What a configuration says, as text; "asked" are the options given on the
// command line, which a file must not be able to change.
string Text(const dreal::Config& c) {
  return vf::Cat("precision=", c.precision(), " models=", c.produce_models(), " compliant=", c.smtlib2_compliant(), " polytope=", c.use_polytope(), " forall-polytope=", c.use_polytope_in_forall(),
                 " worklist=", c.use_worklist_fixpoint(), " local=", c.use_local_optimization(), " dump=", c.dump_theory_literals(), " jobs=", c.number_of_jobs(), " ftol_rel=", c.nlopt_ftol_rel(),
                 " ftol_abs=", c.nlopt_ftol_abs(), " maxeval=", c.nlopt_maxeval(), " maxtime=", c.nlopt_maxtime(), " phase=", static_cast<int>(c.sat_default_phase()), " seed=", c.random_seed(), " left=", c.stack_left_box_first());
}
struct Want {
  double precision{0.001}; bool models{false}, compliant{false}, polytope{false}, fpoly{false}, worklist{false}, local{false}, dump{false};
  int jobs{1}; double rel{1e-6}, abs{1e-6}; int maxeval{100}; double maxtime{0.01}; int phase{2}; unsigned seed{0};
  bool ds{false}, dp{false}, in{false}; string format{"auto"}; int level{static_cast<int>(spdlog::level::err)};
  bool version{false}, help{false};
  std::set<string> asked;
  string Text() const {
    return vf::Cat("precision=", precision, " models=", models, " compliant=", compliant, " polytope=", polytope, " forall-polytope=", fpoly, " worklist=", worklist, " local=", local, " dump=", dump, " jobs=", jobs,
                   " ftol_rel=", rel, " ftol_abs=", abs, " maxeval=", maxeval, " maxtime=", maxtime, " phase=", phase, " seed=", seed, " left=", 0);
  }
};
struct Item { string kind; vector<string> words; std::function<void(Want&)> eff; };
vector<Item> items;      // every spelling and value
vector<int> reps;        // one for each option
void Build() {
  auto flag = [](const string& kind, const vector<string>& sp, bool Want::*m) {
    reps.push_back(items.size());
    for (auto& s : sp) items.push_back({kind, {s}, [=](Want& w) { w.*m = true; w.asked.insert(kind); }});
  };
  flag("models", {"--produce-models", "--model"}, &Want::models);
  flag("compliant", {"--smtlib2-compliant"}, &Want::compliant);
  flag("polytope", {"--polytope"}, &Want::polytope);
  flag("forall-polytope", {"--forall-polytope"}, &Want::fpoly);
  flag("worklist", {"--worklist-fixpoint"}, &Want::worklist);
  flag("local", {"--local-optimization"}, &Want::local);
  flag("dump", {"--dump-theory-literals"}, &Want::dump);
  flag("debug-scanning", {"--debug-scanning"}, &Want::ds);
  flag("debug-parsing", {"--debug-parsing"}, &Want::dp);
  auto num = [](const string& kind, const vector<string>& sp, const vector<string>& vals, std::function<void(Want&, double)> f) {
    reps.push_back(items.size());
    for (auto& s : sp) for (auto& v : vals) {
      const double d = strtod(v.c_str(), nullptr);
      items.push_back({kind, {s, v}, [=](Want& w) { f(w, d); w.asked.insert(kind); }});
    }
  };
  num("precision", {"--precision"}, {"0.5", "1e-9", "2", "0.001"}, [](Want& w, double d) { w.precision = d; });
  num("jobs", {"--jobs", "-j"}, {"4", "1", "13"}, [](Want& w, double d) { w.jobs = static_cast<int>(d); });
  num("ftol_rel", {"--nlopt-ftol-rel"}, {"0.25", "1e-12"}, [](Want& w, double d) { w.rel = d; });
  num("ftol_abs", {"--nlopt-ftol-abs"}, {"0.125", "1e-13"}, [](Want& w, double d) { w.abs = d; });
  num("maxeval", {"--nlopt-maxeval"}, {"7", "2147483647"}, [](Want& w, double d) { w.maxeval = static_cast<int>(d); });
  num("maxtime", {"--nlopt-maxtime"}, {"2.5", "1e-3"}, [](Want& w, double d) { w.maxtime = d; });
  num("phase", {"--sat-default-phase"}, {"0", "1", "2", "3"}, [](Want& w, double d) { w.phase = static_cast<int>(d); });
  num("seed", {"--random-seed"}, {"5", "0", "2147483648", "4294967295"}, [](Want& w, double d) { w.seed = static_cast<unsigned>(d); });
  reps.push_back(items.size());
  const char* const lv[] = {"trace", "debug", "info", "warning", "error", "critical", "off", "Info", "DEBUG", "Error"};
  const int ln[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical, spdlog::level::off, spdlog::level::info, spdlog::level::debug, spdlog::level::err};
  for (int i = 0; i < 10; ++i) {
    if (ln[i] < spdlog::level::warn) continue;  // these print; their stage comes with fewer cases
    items.push_back({"verbose", {"--verbose", lv[i]}, [i, ln](Want& w) { w.level = ln[i]; }});
  }
  reps.push_back(items.size());
  for (auto f : {"smt2", "dr", "auto"}) items.push_back({"format", {"--format", f}, [f](Want& w) { w.format = f; }});
}
// Whether the run went as wanted; `file` is the one argument that is no option, if any.
void Judge(vf::Ctx& c, const vector<string>& args, const Want& w, const string& file, const string& input = "") {
  const R r = Go(args, input);
  ++c.evals; ++c.transitions; ++c.traces;
  const string a = Joined(args);
  auto bad = [&](const string& k, const string& m) { c.Fail(k + ": " + a, m + ", given " + a); };
  if (r.thrown) { bad("exception", "exception: " + r.err); return; }
  if (w.version) { if (r.code != 0 || call.any || r.out.find("dReal v") == string::npos) bad("version", "the version was asked for"); c.Outcome("version"); return; }
  if (w.help) { if (r.code != 0 || call.any || r.err.find("USAGE") == string::npos) bad("help", "usage was asked for"); c.Outcome("help"); return; }
  string reader;
  const size_t dot = file.rfind('.');
  const string ext = dot == string::npos ? "" : file.substr(dot + 1);
  if (w.format != "auto") reader = w.format;
  else if (w.in && file.empty()) reader = "smt2";
  else if (ext == "smt2" || ext == "dr") reader = ext;
  struct stat st;
  const bool exists = !file.empty() && stat(file.c_str(), &st) == 0 && S_ISREG(st.st_mode);
  if (file.empty() && !w.in) reader.clear();
  if (!file.empty() && !exists) reader.clear();
  if (reader.empty()) {
    if (call.any) bad("ran", "the reader " + call.reader + " was run although there is nothing to read");
    if (r.code != 1) bad("status", vf::Cat("status ", r.code, " instead of 1"));
    if (r.err.empty()) bad("silent", "no message");
    c.Outcome("refused");
    return;
  }
  c.Outcome(reader + (w.in ? " stdin" : "") + vf::Cat(" ", w.asked.size()));
  if (!call.any || call.n != 1) { bad("not run", "nothing was read; printed: " + r.err.substr(0, 200)); return; }
  if (call.reader != reader) bad("reader", "read as " + call.reader);
  if (call.file != file) bad("file", "reads the file " + call.file);
  if (r.code != 0) bad("status", vf::Cat("status ", r.code));
  if (call.ds != w.ds || call.dp != w.dp) bad("debugging", vf::Cat("scanning ", call.ds, " parsing ", call.dp));
  if (call.level != w.level) bad("verbosity", vf::Cat("level ", call.level, " instead of ", w.level));
  if (Text(call.cfg) != w.Text()) { bad("options", "runs with " + Text(call.cfg) + " instead of " + w.Text()); return; }
  ++c.nontrivial;
  // A file may change what the command line leaves open, and nothing else.
  dreal::Config f = call.cfg;
  f.mutable_precision().set_from_file(77.5); f.mutable_produce_models().set_from_file(!w.models); f.mutable_smtlib2_compliant().set_from_file(!w.compliant);
  f.mutable_use_polytope().set_from_file(!w.polytope); f.mutable_use_polytope_in_forall().set_from_file(!w.fpoly); f.mutable_use_worklist_fixpoint().set_from_file(!w.worklist);
  f.mutable_use_local_optimization().set_from_file(!w.local); f.mutable_dump_theory_literals().set_from_file(!w.dump); f.mutable_number_of_jobs().set_from_file(99);
  f.mutable_nlopt_ftol_rel().set_from_file(77.5); f.mutable_nlopt_ftol_abs().set_from_file(77.5); f.mutable_nlopt_maxeval().set_from_file(99); f.mutable_nlopt_maxtime().set_from_file(77.5);
  f.mutable_sat_default_phase().set_from_file(static_cast<dreal::Config::SatDefaultPhase>(w.phase ^ 1)); f.mutable_random_seed().set_from_file(99);
  Want x = w;
  auto open = [&](const char* k) { return !w.asked.count(k); };
  if (open("precision")) x.precision = 77.5;
  if (open("models")) x.models = !w.models;
  if (open("compliant")) x.compliant = !w.compliant;
  if (open("polytope")) x.polytope = !w.polytope;
  if (open("forall-polytope")) x.fpoly = !w.fpoly;
  if (open("worklist")) x.worklist = !w.worklist;
  if (open("local")) x.local = !w.local;
  if (open("dump")) x.dump = !w.dump;
  if (open("jobs")) x.jobs = 99;
  if (open("ftol_rel")) x.rel = 77.5;
  if (open("ftol_abs")) x.abs = 77.5;
  if (open("maxeval")) x.maxeval = 99;
  if (open("maxtime")) x.maxtime = 77.5;
  if (open("phase")) x.phase = w.phase ^ 1;
  if (open("seed")) x.seed = 99;
  if (Text(f) != x.Text()) bad("precedence", "after a file set everything: " + Text(f) + " instead of " + x.Text());
}
string File(const string& n) { return dir + "/" + n; }
void Put(const string& n, const string& t) { std::ofstream(File(n)) << t; }
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  d.rule = "case = a sequence of command-line arguments (options with all their spellings and several values, files, formats), run by the real program; what reaches the readers, the exit status and, end to end, the answer are compared with a table written from the usage text";
  d.bounds = {"every ordered pair and triple of 52 option words with their values, the file before, between or after them; every ordered choice of 4 (thorough: 5) of 19 options; all subsets of ten (thorough: of all) options, with the rest",
              "names of files with and without the extensions, with every format, from a file or the standard input", "unacceptable values, unknown options, missing and extra arguments", "end to end: precision, models and compliance given by the command line, the file, both or neither"};
  Build();
  const bool deep = d.thorough;
  {
    char t[] = "/tmp/vf_c38_XXXXXX";
    dir = mkdtemp(t);
    for (auto n : {"a.smt2", "a.dr", "a.SMT2", "a.txt", "plain", "a.smt2.dr", "a.dr.smt2", "a.smt2x", "smt2", "dr", ".smt2", ".dr", "a.smt", "x y.smt2"}) Put(n, "");
    mkdir(File("d.smt2").c_str(), 0700);
    Put("d.smt2/plain", ""); Put("d.smt2/b.dr", "");
  }
  struct Clean { ~Clean() { if (getpid() == pid) { for (auto n : {"a.smt2", "a.dr", "a.SMT2", "a.txt", "plain", "a.smt2.dr", "a.dr.smt2", "a.smt2x", "smt2", "dr", ".smt2", ".dr", "a.smt", "x y.smt2", "d.smt2/plain", "d.smt2/b.dr"}) unlink(File(n).c_str()); rmdir(File("d.smt2").c_str()); rmdir(dir.c_str()); } } pid_t pid{getpid()}; } clean;
  const int n = items.size(), nr = reps.size();
  auto run = [](vf::Ctx& c, const vector<int>& is, int pos, const string& file) {
    Want w;
    vector<string> a;
    for (size_t k = 0; k <= is.size(); ++k) {
      if (static_cast<int>(k) == pos) a.push_back(file);
      if (k < is.size()) { for (auto& s : items[is[k]].words) a.push_back(s); items[is[k]].eff(w); }
    }
    Judge(c, a, w, file);
  };
  auto same = [](int i, int j) { return items[i].kind == items[j].kind; };
  d.Add("one and two options", n, [=](int64_t u, vf::Ctx& c) {
    const int i = u;
    c.Note(items[i].words[0]); ++c.states;
    for (auto f : {"a.smt2", "a.dr"}) {
      for (int p = 0; p < 2; ++p) run(c, {i}, p, File(f));
      for (int j = 0; j < n; ++j) if (!same(i, j)) { ++c.states; for (int p = 0; p < 3; ++p) run(c, {i, j}, p, File(f)); }
    }
  });
  d.Add("three options", n, [=](int64_t u, vf::Ctx& c) {
    const int i = u;
    c.Note(items[i].words[0]);
    for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) {
      if (same(i, j) || same(i, k) || same(j, k)) continue;
      ++c.states;
      run(c, {i, j, k}, deep ? (i + j + k) % 4 : 3, File((i ^ j ^ k) & 1 ? "a.dr" : "a.smt2"));
    }
  });
  d.Add("four options", nr * nr, [=](int64_t u, vf::Ctx& c) {
    const int i = u / nr, j = u % nr;
    if (i == j) return;
    for (int k = 0; k < nr; ++k) for (int l = 0; l < nr; ++l) {
      if (k == i || k == j || l == i || l == j || l == k) continue;
      ++c.states;
      run(c, {reps[i], reps[j], reps[k], reps[l]}, (i + k) % 5, File("a.smt2"));
      if (!deep) continue;
      for (int m = 0; m < nr; ++m) {
        if (m == i || m == j || m == k || m == l) continue;
        ++c.states;
        run(c, {reps[i], reps[j], reps[k], reps[l], reps[m]}, (i + k + m) % 6, File("a.smt2"));
      }
    }
  });
  d.Add("all but some", 1 << (d.thorough ? nr - 2 : 10), [=](int64_t u, vf::Ctx& c) {
    // all subsets of the options, the rest always given
    vector<int> is;
    for (int b = 0; b < nr - 2; ++b) if (b >= (deep ? nr - 2 : 10) || !(u >> b & 1)) is.push_back(reps[b]);
    ++c.states;
    run(c, is, is.size(), File("a.smt2"));
    std::reverse(is.begin(), is.end());
    run(c, is, 0, File("a.dr"));
  });
  d.Add("verbosity", 1, [=](int64_t, vf::Ctx& c) {
    dreal::log()->sinks().clear();
    for (auto& p : std::vector<std::pair<const char*, int>>{{"trace", spdlog::level::trace}, {"debug", spdlog::level::debug}, {"info", spdlog::level::info}, {"warning", spdlog::level::warn}, {"error", spdlog::level::err}, {"critical", spdlog::level::critical}, {"off", spdlog::level::off},
                                                              {"Info", spdlog::level::info}, {"DEBUG", spdlog::level::debug}, {"OFF", spdlog::level::off}, {"Critical", spdlog::level::critical}})
      for (int j = -1; j < n; ++j) {
        if (j >= 0 && items[j].kind == "verbose") continue;
        Want w;
        w.level = p.second;
        vector<string> a{"--verbose", p.first};
        if (j >= 0) { items[j].eff(w); for (auto& s : items[j].words) a.push_back(s); }
        a.push_back(File("a.smt2"));
        ++c.states;
        Judge(c, a, w, File("a.smt2"));
      }
  });
  d.Add("files", 1, [=](int64_t, vf::Ctx& c) {
    for (auto f : {"a.smt2", "a.dr", "a.SMT2", "a.txt", "plain", "a.smt2.dr", "a.dr.smt2", "a.smt2x", "smt2", "dr", ".smt2", ".dr", "a.smt", "x y.smt2", "missing.smt2", "missing.dr", "missing", "d.smt2", "d.smt2/b.dr", "d.smt2/missing.smt2"})
      for (auto fmt : {"", "auto", "smt2", "dr"})
        for (int pos = 0; pos < 2; ++pos)
          for (int j = -1; j < nr; ++j) {
            if (j >= 0 && items[reps[j]].kind == "format") continue;
            Want w;
            vector<string> a;
            if (*fmt) { a = {"--format", fmt}; w.format = fmt; }
            if (j >= 0) { items[reps[j]].eff(w); for (auto& s : items[reps[j]].words) a.push_back(s); }
            a.insert(pos ? a.end() : a.begin(), File(f));
            ++c.states;
            Judge(c, a, w, File(f));
          }
    for (auto fmt : {"", "auto", "smt2", "dr"})  // from the standard input
      for (int j = -1; j < n; ++j) for (int pos = 0; pos < 2; ++pos) {
        if (j >= 0 && items[j].kind == "format") continue;
        Want w;
        w.in = true;
        vector<string> a;
        if (*fmt) { a = {"--format", fmt}; w.format = fmt; }
        if (j >= 0) { items[j].eff(w); for (auto& s : items[j].words) a.push_back(s); }
        a.insert(pos ? a.end() : a.begin(), "--in");
        ++c.states;
        Judge(c, a, w, "");
      }
    for (int j = -1; j < n; ++j) for (auto& h : std::vector<std::pair<string, bool>>{{"-h", false}, {"-help", false}, {"--help", false}, {"--usage", false}, {"-v", true}, {"--version", true}})
      for (int file = 0; file < 2; ++file) for (int pos = 0; pos < 2; ++pos) {
        Want w;
        (h.second ? w.version : w.help) = true;
        vector<string> a;
        if (j >= 0) a = items[j].words;
        a.insert(pos ? a.end() : a.begin(), h.first);
        if (file) a.push_back(File("a.smt2"));
        ++c.states;
        Judge(c, a, w, file ? File("a.smt2") : "");
      }
  });
  d.Add("refused", 1, [=](int64_t, vf::Ctx& c) {
    const string f = File("a.smt2");
    vector<vector<string>> bad{{}, {f, f}, {f, File("a.dr")}, {f, "--nope"}, {"--nope", f}, {"--nope"}, {"--precision"}, {f, "--precision"}, {f, "--jobs"}, {f, "--format"}, {f, "-j"}, {f, "--random-seed"},
                               {f, "--verbose"}, {f, "extra", "--model"}, {"--model", "extra", f}, {"--model", f, "extra", "--polytope"}};
    for (auto o : {"--precision", "--nlopt-ftol-rel", "--nlopt-ftol-abs", "--nlopt-maxtime"})
      for (auto v : {"0", "-1", "-0.001", "x", "1x", "", "0.0", "1,2"}) bad.push_back({o, v, f});
    for (auto v : {"0", "-1", "x", "1.5", "", "2147483648", "99999999999"}) bad.push_back({"--nlopt-maxeval", v, f});
    for (auto v : {"", "SMT2", "smt", "smt2,dr", "dr ", "x"}) bad.push_back({"--format", v, f});
    for (auto v : {"", "loud", "warn", "info,debug", "3"}) bad.push_back({"--verbose", v, f});
    for (auto& b : bad)
      for (int j = -1; j < n; ++j) for (int pos = 0; pos < 2; ++pos) {
        if (b.size() && j >= 0 && b.back() != f && pos && b.back() != "--nope" && b.size() < 3) continue;  // an option without its value has to come last
        bool clash = false;
        for (auto& w : b) clash = clash || (j >= 0 && w == items[j].words[0]);
        if (clash || (j >= 0 && b.size() > 1 && b[0] == "--format" && items[j].kind == "format") || (j >= 0 && b.size() > 1 && b[0] == "--verbose" && items[j].kind == "verbose")) continue;
        vector<string> a = b;
        if (j >= 0) a.insert(pos ? a.end() : a.begin(), items[j].words.begin(), items[j].words.end());
        const R r = Go(a);
        ++c.states; ++c.evals; ++c.transitions; ++c.traces; ++c.nontrivial;
        if (r.thrown) c.Fail("exception: " + Joined(a), r.err);
        else if (call.any) c.Fail("accepted: " + Joined(a), "ran the reader " + call.reader + " given " + Joined(a));
        else if (r.code == 0 || r.err.empty()) c.Fail("status: " + Joined(a), vf::Cat("status ", r.code, " and message '", r.err.substr(0, 80), "' given ", Joined(a)));
        c.Outcome(r.err.substr(0, 20));
      }
  });
  // options set by a file, in every order, on top of those of the command line
  struct Key { const char* words[2]; int which; };
  static const Key keys[] = {{{":polytope", ":polytope"}, 0}, {{":forall-polytope", ":forall_polytope"}, 1}, {{":local-optimization", ":local_optimization"}, 2},
                             {{":worklist-fixpoint", ":worklist_fixpoint"}, 3}, {{":produce-models", ":produce_models"}, 4}, {{":smtlib2-compliant", ":smtlib2_compliant"}, 5}, {{":unheard-of", ":precisionn"}, 6}};
  const int depth = deep ? 4 : 3, nk = 7 * 2 * 2 + 2;  // the last two set the precision
  d.Add("set-option", 1 << 7, [=](int64_t u, vf::Ctx& c) {
    vector<string> a;
    const char* const fl[] = {"--polytope", "--forall-polytope", "--local-optimization", "--worklist-fixpoint", "--produce-models", "--smtlib2-compliant"};
    bool asked[7] = {};
    for (int b = 0; b < 6; ++b) if (u >> b & 1) { a.push_back(fl[b]); asked[b] = true; }
    const bool prec = u >> 6 & 1;
    if (prec) { a.push_back("--precision"); a.push_back("0.125"); }
    a.push_back(File("a.smt2"));
    Go(a);
    const dreal::Config cfg = call.cfg;
    int64_t total = 1;
    for (int k = 0; k < depth; ++k) total *= nk;
    vector<int> seq(depth);
    for (int64_t t = 0; t < total; ++t) {
      int64_t q = t;
      for (int k = 0; k < depth; ++k) { seq[k] = q % nk; q /= nk; }
      // Only sequences that set one or two things are told apart by what they interact with.
      bool far = false;
      for (int k = 2; k < depth; ++k) far = far || (seq[k] / 4 != seq[0] / 4 && seq[k] / 4 != seq[1] / 4);
      if (far) continue;
      bool want[7];
      for (int b = 0; b < 7; ++b) want[b] = asked[b];
      double p = prec ? 0.125 : 0.001;
      dreal::Context x{cfg};
      string text;
      for (int s : seq) {
        if (s >= 28) {
          const double v = s == 28 ? 0.5 : 0.25;
          x.SetOption(":precision", v);
          if (!prec) p = v;
          text += vf::Cat(" :precision ", v);
          continue;
        }
        const Key& k = keys[s / 4];
        const bool v = s & 1;
        x.SetOption(k.words[s / 2 % 2], v ? "true" : "false");
        if (!asked[k.which]) want[k.which] = v;
        text += vf::Cat(" ", k.words[s / 2 % 2], " ", v);
      }
      const dreal::Config& g = x.config();
      const bool got[7] = {g.use_polytope(), g.use_polytope_in_forall(), g.use_local_optimization(), g.use_worklist_fixpoint(), g.produce_models(), g.smtlib2_compliant(), want[6]};
      ++c.states; ++c.evals; ++c.traces; c.transitions += depth; ++c.nontrivial;
      for (int b = 0; b < 6; ++b) if (got[b] != want[b]) c.Fail(vf::Cat("set-option", text, " after ", Joined(a)), vf::Cat(keys[b].words[0], " is ", got[b], " after set-option", text, " given ", Joined(a)));
      if (g.precision() != p) c.Fail(vf::Cat("set-option", text, " after ", Joined(a)), vf::Cat("the precision is ", g.precision(), " after set-option", text, " given ", Joined(a)));
      const auto o = x.GetOption(":precision");
      if (!o || atof(o->c_str()) != p) c.Fail(vf::Cat("get-option", text, " after ", Joined(a)), vf::Cat("get-option :precision gives ", o ? *o : "nothing", " after set-option", text, " given ", Joined(a)));
      c.Outcome(vf::Cat(want[0], want[1], want[2], want[3], want[4], want[5], p));
    }
  });
  d.Add("end to end", 3, [=](int64_t u, vf::Ctx& c) {
    through = true;
    const string sf = File("a.txt");
    for (auto cp : {"", "0.5", "0.125"}) for (auto fp : {"", "0.25", "0.0625"}) for (int cm = 0; cm < 2; ++cm) for (auto fm : {"", "true", "false"}) for (int cc = 0; cc < 2; ++cc) for (auto fc : {"", "true", "false"})
      for (int unsat = 0; unsat < 2; ++unsat) for (auto sep : {'-', '_'}) {
        if (sep == '_' && !*fm && !*fc) continue;
        std::ostringstream s;
        string m = "models", co = "compliant";
        s << "(set-logic QF_NRA)\n";
        if (*fp) s << "(set-option :precision " << fp << ")\n";
        if (*fm) s << "(set-option :produce" << sep << "models " << fm << ")\n";
        if (*fc) s << "(set-option :smtlib2" << sep << "compliant " << fc << ")\n";
        s << "(declare-fun x () Real)\n(assert (<= 0 x))\n(assert (<= x 1))\n(assert (" << (unsat ? ">" : "<=") << " (+ x 1) 3))\n(check-sat)\n(get-option :precision)\n(exit)\n";
        vector<string> a;
        if (*cp) { a.push_back("--precision"); a.push_back(cp); }
        if (cm) a.push_back("--produce-models");
        if (cc) a.push_back("--smtlib2-compliant");
        string in;
        const string t = u == 2 ? File("x y.smt2") : sf;
        // a file that is shared by several processes is private to each here
        const string mine = vf::Cat(dir, u == 2 ? "/e.smt2" : "/e.txt");
        if (u == 0) { a.push_back("--in"); in = s.str(); }
        else { std::ofstream(mine) << s.str(); if (u == 1) { a.push_back("--format"); a.push_back("smt2"); } a.push_back(mine); }
        const R r = Go(a, in);
        if (u) unlink(mine.c_str());
        ++c.states; ++c.evals; ++c.transitions; ++c.traces; ++c.nontrivial;
        const double p = *cp ? atof(cp) : *fp ? atof(fp) : 0.001;
        const bool models = cm || !strcmp(fm, "true"), comp = cc || !strcmp(fc, "true");
        string first = unsat ? "unsat" : comp ? "delta-sat" : vf::Cat("delta-sat with delta = ", p);
        const string key = vf::Cat("end to end ", Joined(a), " / ", s.str());
        const string got = r.out.substr(0, r.out.find('\n'));
        if (r.thrown || r.code != 0) c.Fail(key, vf::Cat("status ", r.code, " ", r.err));
        else if (got != first) c.Fail(key, "prints " + r.out + " instead of " + first + " " + r.err);
        else if (r.out.find(vf::Cat("\n", p, "\n")) == string::npos) c.Fail(key, vf::Cat("get-option :precision should be ", p, ", printed ", r.out));
        else if (!comp) { const bool shown = r.out.find("x :") != string::npos || r.out.find("x:") != string::npos; if (shown != (models && !unsat)) c.Fail(key, "models wanted: " + vf::Cat(models) + ", printed " + r.out); }
        c.Outcome(r.out.substr(0, r.out.find('\n')));
      }
    for (auto cp : {"", "0.5"}) for (int cm = 0; cm < 2; ++cm) for (int unsat = 0; unsat < 2; ++unsat) {
      const string s = vf::Cat("var:\n[0, 1] x;\nctr:\nx + 1 ", unsat ? ">= 3" : "<= 3", ";\n");
      vector<string> a;
      if (*cp) { a.push_back("--precision"); a.push_back(cp); }
      if (cm) a.push_back("--model");
      string in;
      const string mine = vf::Cat(dir, u == 2 ? "/e.dr" : "/e2.txt");
      if (u == 0) { a.push_back("--in"); a.push_back("--format"); a.push_back("dr"); in = s; }
      else { std::ofstream(mine) << s; if (u == 1) { a.push_back("--format"); a.push_back("dr"); } a.push_back(mine); }
      const R r = Go(a, in);
      if (u) unlink(mine.c_str());
      ++c.states; ++c.evals; ++c.transitions; ++c.traces; ++c.nontrivial;
      const string first = unsat ? "unsat" : vf::Cat("delta-sat with delta = ", *cp ? atof(cp) : 0.001);
      if (r.thrown || r.code != 0 || r.out.substr(0, r.out.find('\n')) != first) c.Fail(vf::Cat("end to end dr ", Joined(a), " / ", s), vf::Cat("status ", r.code, " prints ", r.out, r.err));
      else if ((r.out.find("x :") != string::npos || r.out.find("x:") != string::npos) != (cm && !unsat)) c.Fail(vf::Cat("end to end dr ", Joined(a), " / ", s), "prints " + r.out);
      c.Outcome(r.out.substr(0, r.out.find('\n')));
    }
    through = false;
  });
  return d.Run();
}
