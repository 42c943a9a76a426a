// C21: option precedence, over every sequence of settings.
#include <sstream>
#include "dreal/util/option_value.h"
#include "vf.h"

template <class T>
void Run(vf::Driver* d, const std::string& name, T def, std::vector<T> vals, int depth) {
  using O = dreal::OptionValue<T>;
  struct S { O o; T v; int src; };
  // 0 default 1 file 2 command line 3 code
  const int nv = static_cast<int>(vals.size());
  const int nops = 4 * nv + 4;
  auto nm = [=](int o) -> std::string {
    if (o < 4 * nv) { const char* k[] = {"file", "cmdline", "code", "code(move)"}; return vf::Cat(k[o / nv], o % nv); }
    const char* k[] = {"copy", "copy-assign", "move", "self-copy"};
    return k[o - 4 * nv];
  };
  d->Add(name, nops * nops, [=](int64_t u, vf::Ctx& c) {
    std::vector<int> path;
    std::function<void(const S&, int)> step = [&](const S& st, int o) {
      path.push_back(o);
      std::string id = name;
      for (int p : path) id += " " + nm(p);
      c.Note(id);
      S nx = st;
      if (o < 4 * nv) {
        const T v = vals[o % nv];
        const int k = o / nv;
        const int src = k == 0 ? 1 : k == 1 ? 2 : 3;
        if (k == 0) nx.o.set_from_file(v);
        else if (k == 1) nx.o.set_from_command_line(v);
        else if (k == 2) nx.o = v;
        else { T t = v; nx.o = std::move(t); }
        if (src >= nx.src) { nx.src = src; nx.v = v; }
      } else if (o == 4 * nv) {
        O t(nx.o);
        t = vals[0];
        O t2(nx.o);
        t2.set_from_command_line(vals[nv - 1]);
      } else if (o == 4 * nv + 1) {
        O t(vals[0]);
        t = vals[0];
        t = nx.o;
        nx.o = t;
      } else if (o == 4 * nv + 2) {
        O t(std::move(nx.o));
        nx.o = std::move(t);
      } else {
        O* q = &nx.o;
        nx.o = *q;
      }
      ++c.transitions;
      ++c.evals;
      if (!(nx.o.get() == nx.v)) c.Fail("value " + id, "after " + id + ": the option holds the wrong value");
      if (!(st.o.get() == st.v)) c.Fail("copy " + id, "after " + id + ": an earlier copy changed");
      // the recorded source shows in what may still overwrite it
      for (int s = 1; s <= 3; ++s)
        for (const T& v : vals) {
          O t(nx.o);
          if (s == 1) t.set_from_file(v);
          else if (s == 2) t.set_from_command_line(v);
          else t = v;
          ++c.evals;
          if (!(t.get() == (s >= nx.src ? v : nx.v))) c.Fail(vf::Cat("source ", id, " then ", s), vf::Cat("after ", id, ", a setting from source ", s, " has the wrong effect"));
        }
      c.Outcome(vf::Cat(name, nx.src, nx.v));
      if (nx.src > 1) ++c.nontrivial;
      if (static_cast<int>(path.size()) < depth) for (int p = 0; p < nops; ++p) step(nx, p);
      else ++c.traces;
      path.pop_back();
    };
    S s{O(def), def, 0};
    if (!(s.o.get() == def)) c.Fail("default", "default value is not kept");
    S s1 = s;
    path = {};
    // unit = first two operations
    const int a = u / nops, b = u % nops;
    std::function<void()> go = [&] {
      path.push_back(a);
      S nx = s;
      if (a < 4 * nv) {
        const T v = vals[a % nv];
        const int k = a / nv;
        if (k == 0) nx.o.set_from_file(v);
        else if (k == 1) nx.o.set_from_command_line(v);
        else nx.o = v;
        nx.src = k == 0 ? 1 : k == 1 ? 2 : 3;
        nx.v = v;
      }
      if (!(nx.o.get() == nx.v)) c.Fail("value1 " + nm(a), "after one setting the option holds the wrong value");
      step(nx, b);
    };
    go();
    c.State(vf::Cat(name, u));
  });
}
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const int depth = d.thorough ? 6 : 5;
  d.rule = "case = one sequence of settings, copies and moves; value compared with the precedence model after every step, and the recorded source by what can still overwrite it";
  d.bounds = {vf::Cat("double (2 values), string, bool and int options, sequences of length ", depth)};
  Run<double>(&d, "double", 0.001, {0.5, 0.001}, depth);
  Run<int>(&d, "int", 0, {0, -7}, depth);
  Run<bool>(&d, "bool", false, {true, false}, depth);
  Run<std::string>(&d, "string", "default", {"a", std::string(40, 'b')}, depth - 1);
  return d.Run();
}
