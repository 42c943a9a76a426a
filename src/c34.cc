// BUILD: full
// C34: the interval made from a decimal numeral, against exact rationals.
#include <cfenv>
#include <gmpxx.h>
#include "dreal/util/string_to_interval.h"
#include "vf.h"
using namespace dreal;
namespace {
// the numerals of the input languages: [-+]? digits with an optional point and
// an optional exponent (an exponent needs a digit before it)
bool Numeral(const std::string& s) {
  size_t i = 0;
  auto digs = [&] { size_t k = i; while (i < s.size() && isdigit(s[i])) ++i; return i - k; };
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  const size_t a = digs();
  bool point = false, after = false;
  if (i < s.size() && s[i] == '.') { point = true; ++i; after = digs() > 0; }
  if (!a && !after) return false;
  if (i == s.size()) return true;
  if (point && !after) return false;  // "1.e5" is not in the grammar
  if (s[i] != 'e' && s[i] != 'E') return false;
  ++i;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  return digs() > 0 && i == s.size();
}
mpq_class Pow10(long e) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, std::labs(e)); return e >= 0 ? mpq_class(z) : mpq_class(mpz_class(1), z); }
mpq_class Exact(const std::string& s) {
  size_t i = 0;
  bool neg = false;
  if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
  std::string d;
  long e = 0;
  for (; i < s.size() && s[i] != 'e' && s[i] != 'E'; ++i)
    if (s[i] != '.') d += s[i];
  const size_t pt = s.find('.');
  if (pt != std::string::npos) e -= static_cast<long>((i - 1) - pt);
  if (i < s.size()) e += std::stol(s.substr(i + 1));
  mpq_class r = mpq_class(mpz_class(d, 10)) * Pow10(e);
  return neg ? mpq_class(-r) : r;
}
mpq_class Q(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
// the shortest exact decimal expansion of a dyadic rational
std::string Dec(mpq_class q) {
  const bool neg = q < 0;
  if (neg) q = -q;
  long sh = 0;
  mpz_class den = q.get_den();
  while (den > 1) { den /= 2; ++sh; }
  mpz_class f; mpz_ui_pow_ui(f.get_mpz_t(), 5, sh);
  std::string d = mpz_class(q.get_num() * f).get_str();
  if (sh) {
    if (static_cast<long>(d.size()) <= sh) d = std::string(sh + 1 - d.size(), '0') + d;
    d.insert(d.size() - sh, ".");
  }
  return (neg ? "-" : "") + d;
}
void Check(vf::Ctx& c, const std::string& s) {
  const mpq_class v = Exact(s);
  const mpq_class a = abs(v);
  // stod signals values outside the normal range; the property stops there
  if (a != 0 && (a < Q(std::numeric_limits<double>::min()) || a > Q(std::numeric_limits<double>::max()))) { ++c.extra["outside the normal range"]; return; }
  c.Note(s);
  const std::string shown = s.size() > 60 ? s.substr(0, 60) + "..." : s;
  Box::Interval r;
  const int mode = fegetround();
  try { r = StringToInterval(s); } catch (const std::exception& e) {
    c.Fail("throws", vf::Cat("converting ", shown, " throws ", e.what()));
    return;
  }
  ++c.transitions; ++c.traces; ++c.evals;
  if (fegetround() != mode) { c.Fail("mode", "rounding mode changed by " + shown); fesetround(mode); }
  const mpq_class n = Q(s.empty() ? 0 : r.lb()), u = Q(r.ub());
  std::string why;
  if (r.is_empty() || !(n <= v && v <= u)) why = "does not contain the value";
  else if (r.lb() == r.ub()) ++c.extra["exact"];
  else {
    if (std::nextafter(r.lb(), std::numeric_limits<double>::infinity()) != r.ub()) why = "is wider than one step";
    if (n == v || u == v) why = "is no point though the value is representable";
    ++c.nontrivial;
  }
  if (!why.empty()) c.Fail(why, vf::Cat("[", r.lb(), ", ", r.ub(), "] from ", shown, " ", why));
  c.Outcome(vf::Cat(r.lb() == r.ub(), r.lb() > 0, r.ub() < 0));
}
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  const std::string al = "01579.eE+-";
  const int L = th ? 8 : 6, A = al.size();
  d.Add("strings", A * A, [=](int64_t u, vf::Ctx& c) {
    std::string s{al[u / A], al[u % A]};
    if (Numeral(s)) { c.State(s); Check(c, s); c.Sample(s); }
    if (u % A == 0) { std::string t(1, al[u / A]); if (Numeral(t)) Check(c, t); }
    std::function<void()> rec = [&] {
      if (static_cast<int>(s.size()) == L) return;
      for (char k : al) {
        s += k;
        if (Numeral(s)) { if (s.size() < 5) c.State(s); Check(c, s); }
        rec();
        s.pop_back();
      }
    };
    rec();
  });
  // decimals at and beside every kind of rounding boundary, every exponent
  d.Add("boundaries", 2046, [=](int64_t u, vf::Ctx& c) {
    const int e = static_cast<int>(u) - 1022;
    std::vector<double> ms{1.0, std::nextafter(1.0, 2.0), 1.5, std::nextafter(2.0, 1.0)};
    if (th) for (int k = 1; k < 52; k += 3) { ms.push_back(1 + std::ldexp(1.0, -k)); ms.push_back(2 - std::ldexp(1.0, -k)); }
    for (double m : ms) {
      const double x = std::ldexp(m, e);
      if (std::isinf(x)) continue;
      const double nx = std::nextafter(x, std::numeric_limits<double>::infinity());
      std::vector<mpq_class> vs{Q(x)};
      if (!std::isinf(nx)) {
        const mpq_class half = (Q(x) + Q(nx)) / 2, q4 = (Q(x) * 3 + Q(nx)) / 4;
        vs.push_back(half); vs.push_back(q4);
      }
      c.State(vf::Cat(x));
      for (auto& q : vs)
        for (int sg = 0; sg < 3; ++sg) {
          std::string s = Dec(q);
          if (s.find('.') == std::string::npos) s += ".0";
          const std::string pre = sg == 1 ? "-" : sg == 2 ? "+" : "";
          Check(c, pre + s);
          Check(c, pre + s + "0000");
          Check(c, pre + s + "0000000000000000001");   // just above in magnitude
          std::string b = s + "0";                      // just below: borrow from the last digits
          for (size_t i = b.size(); i-- > 0;) {
            if (b[i] == '.') continue;
            if (b[i] == '0') { b[i] = '9'; continue; }
            --b[i]; break;
          }
          Check(c, pre + b);
          // the first 17 and 20 digits with an exponent
          for (size_t nd : {17, 20, 25}) {
            std::string t = s;
            const size_t p = t.find('.');
            t.erase(p, 1);
            size_t z = t.find_first_not_of('0');
            if (z == std::string::npos || t.size() - z < nd) continue;
            const long ex = static_cast<long>(p) - static_cast<long>(z) - 1;
            Check(c, vf::Cat(pre, t[z], ".", t.substr(z + 1, nd - 1), "e", ex));
            Check(c, vf::Cat(pre, t[z], t[z + 1], ".", t.substr(z + 2, nd - 2), "E", ex - 1 < 0 ? "-" : "+", std::labs(ex - 1)));
          }
        }
    }
    if (u % 500 == 0) c.Sample(vf::Cat("2^", e));
  });
  d.rule = "the interval contains the exact value, is at most one representable step wide, and is a point exactly when the value is representable";
  d.bounds = {vf::Cat("every numeral of at most ", L, " characters over ", A, " characters"), "every binary exponent x several mantissas: the double, the midpoint and the quarter point to the next, one unit beside them in the last decimal place, their leading 17, 20 and 25 digits, both signs", "values of normal magnitude and zero"};
  return d.Run();
}
