// A stand-in for ezOptionParser 0.2, which is not installed here: the part of
// its interface that the command-line program uses, with the behaviour its
// documentation gives.
//   - arguments before the first flag, those between flags that belong to none
//     and those after the last are kept in firstArgs (with the name of the
//     program), unknownArgs and lastArgs; without any flag all of them are last
//   - a flag that expects an argument takes the word after it, whatever it is
#pragma once
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace ez {
class ezOptionValidator {
 public:
  ezOptionValidator(const char* type, const char* op = "", const char* list = "", bool insensitive = false)
      : type_{type}, op_{op}, insensitive_{insensitive} {
    std::string w;
    for (const char* p = list;; ++p) {
      if (*p == ',' || !*p) { list_.push_back(Fold(w)); w.clear(); } else { w += *p; }
      if (!*p) break;
    }
  }
  bool isValid(const std::string& s) const {
    if (type_ == "t") {
      if (op_ != "in") return true;
      for (auto& x : list_) if (x == Fold(s)) return true;
      return false;
    }
    char* end;
    if (type_ == "d" || type_ == "f") {
      const double v = strtod(s.c_str(), &end);
      return !s.empty() && !*end && Cmp(v, strtod(list_[0].c_str(), nullptr));
    }
    const long long v = strtoll(s.c_str(), &end, 10);
    if (s.empty() || *end) return false;
    if (type_ == "s4" && (v < INT32_MIN || v > INT32_MAX)) return false;
    return Cmp(v, strtoll(list_[0].c_str(), nullptr, 10));
  }

 private:
  template <typename T>
  bool Cmp(T a, T b) const {
    return op_ == "gt" ? a > b : op_ == "ge" ? a >= b : op_ == "lt" ? a < b : op_ == "le" ? a <= b : op_ == "eq" ? a == b : true;
  }
  std::string Fold(std::string s) const {
    if (insensitive_) for (auto& c : s) c = static_cast<char>(tolower(c));
    return s;
  }
  std::string type_, op_;
  std::vector<std::string> list_;
  bool insensitive_;
};
class OptionGroup {
 public:
  const std::string& Text() const { return args.empty() ? defaults : args[0]; }
  void getString(std::string& o) const { o = Text(); }
  void getInt(int& o) const { o = static_cast<int>(atol(Text().c_str())); }
  void getLong(long& o) const { o = atol(Text().c_str()); }
  void getULong(unsigned long& o) const { o = strtoul(Text().c_str(), nullptr, 0); }
  void getLongLong(long long& o) const { o = atoll(Text().c_str()); }
  void getULongLong(unsigned long long& o) const { o = strtoull(Text().c_str(), nullptr, 0); }
  void getFloat(float& o) const { o = static_cast<float>(atof(Text().c_str())); }
  void getDouble(double& o) const { o = atof(Text().c_str()); }
  std::string defaults, help;
  std::vector<std::string> flags, args;
  int expectArgs{0};
  bool isRequired{false}, isSet{false};
  ezOptionValidator* validator{nullptr};  // may be shared by several options
};
class ezOptionParser {
 public:
  std::string overview, syntax, example, footer;
  std::vector<std::string*> firstArgs, lastArgs, unknownArgs;
  void add(const char* d, bool req, int n, char, const char* help, const char* f1, ezOptionValidator* v = nullptr) { Add(d, req, n, help, {f1}, v); }
  void add(const char* d, bool req, int n, char, const char* help, const char* f1, const char* f2, ezOptionValidator* v = nullptr) { Add(d, req, n, help, {f1, f2}, v); }
  void add(const char* d, bool req, int n, char, const char* help, const char* f1, const char* f2, const char* f3, ezOptionValidator* v = nullptr) { Add(d, req, n, help, {f1, f2, f3}, v); }
  void add(const char* d, bool req, int n, char, const char* help, const char* f1, const char* f2, const char* f3, const char* f4, ezOptionValidator* v = nullptr) { Add(d, req, n, help, {f1, f2, f3, f4}, v); }
  void parse(int argc, const char* argv[]) {
    if (argc < 1) return;
    int i = 0;
    while (i < argc && !Find(argv[i])) ++i;
    if (i == argc) {
      firstArgs.push_back(Keep(argv[0]));
      for (int k = 1; k < argc; ++k) lastArgs.push_back(Keep(argv[k]));
      return;
    }
    for (int k = 0; k < i; ++k) firstArgs.push_back(Keep(argv[k]));
    const int first = i;
    int last = i;
    for (; i < argc; ++i) {
      OptionGroup* const g = Find(argv[i]);
      if (!g) continue;
      g->isSet = true;
      if (g->expectArgs) {
        if (++i >= argc) return;
        g->args.push_back(argv[i]);
      }
      last = i;
    }
    for (i = first; i <= last; ++i) {
      OptionGroup* const g = Find(argv[i]);
      if (!g) unknownArgs.push_back(Keep(argv[i]));
      else if (g->expectArgs) ++i;
    }
    for (int k = last + 1; k < argc; ++k) lastArgs.push_back(Keep(argv[k]));
  }
  bool gotRequired(std::vector<std::string>& bad) {
    for (auto& g : groups_) if (g->isRequired && !g->isSet) bad.push_back(g->flags[0]);
    return bad.empty();
  }
  bool gotExpected(std::vector<std::string>& bad) {
    for (auto& g : groups_) if (g->isSet && g->expectArgs && g->args.empty()) bad.push_back(g->flags[0]);
    return bad.empty();
  }
  bool gotValid(std::vector<std::string>& bad, std::vector<std::string>& args) {
    for (auto& g : groups_)
      if (g->isSet && g->validator)
        for (auto& a : g->args) if (!g->validator->isValid(a)) { bad.push_back(g->flags[0]); args.push_back(a); }
    return bad.empty();
  }
  int isSet(const char* f) { OptionGroup* g = Find(f); return g && g->isSet; }
  int isSet(const std::string& f) { return isSet(f.c_str()); }
  OptionGroup* get(const char* f) { return Find(f); }
  void getUsage(std::string& s, int = 80) {
    s = overview + "\n\nUSAGE: " + syntax + "\n\nOPTIONS:\n\n";
    for (auto& g : groups_) { for (auto& f : g->flags) s += f + " "; s += g->help + "\n"; }
  }

 private:
  void Add(const char* d, bool req, int n, const char* help, std::vector<std::string> flags, ezOptionValidator* v) {
    auto g = std::make_shared<OptionGroup>();
    g->defaults = d; g->isRequired = req; g->expectArgs = n; g->help = help; g->flags = flags; g->validator = v;
    if (v && !owned_.count(v)) owned_[v].reset(v);
    for (auto& f : flags) ids_[f] = g.get();
    groups_.push_back(g);
  }
  OptionGroup* Find(const char* f) { auto it = ids_.find(f); return it == ids_.end() ? nullptr : it->second; }
  std::string* Keep(const char* s) { kept_.push_back(std::make_shared<std::string>(s)); return kept_.back().get(); }
  std::map<ezOptionValidator*, std::unique_ptr<ezOptionValidator>> owned_;
  std::vector<std::shared_ptr<OptionGroup>> groups_;
  std::map<std::string, OptionGroup*> ids_;
  std::vector<std::shared_ptr<std::string>> kept_;
};
}  // namespace ez
