// C22: numeric classification and conversion, over exhaustively enumerated
// value classes; statistics counters over event histories.
#include <cfenv>
#include <cmath>
#include <cstring>
#include <limits>
#include "dreal/util/math.h"
#include "dreal/util/stat.h"
#include "vf.h"

// integer test on the bit pattern: no floating-point operation involved
static bool RefInt(double v) {
  uint64_t b;
  memcpy(&b, &v, 8);
  const bool neg = b >> 63;
  const int e = static_cast<int>(b >> 52 & 0x7ff);
  const uint64_t m = b & ((1ull << 52) - 1);
  if (e == 0) return m == 0;  // zero, or a subnormal
  const int k = e - 1023;     // value = 1.m * 2^k
  if (k < 0) return false;
  if (k > 31) return false;
  const uint64_t full = m | 1ull << 52;
  if (full & ((1ull << (52 - k)) - 1)) return false;
  const uint64_t a = full >> (52 - k);
  return neg ? a <= 1ull << 31 : a < 1ull << 31;
}
static double D(uint64_t b) { double v; memcpy(&v, &b, 8); return v; }
static uint64_t B(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }

struct Counter : dreal::Stat {
  explicit Counter(bool e) : Stat(e) {}
  void a() { increase(&x); }
  void b() { increase(&y); }
  std::atomic<int> x{0};
  std::atomic<int64_t> y{-3};
};

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  d.rule = "case = one value; is_integer against a test on the bit pattern, conversions against exact integer arithmetic; all bit patterns of the stated classes";
  d.bounds = {"is_integer: every exponent and sign x every 52-bit mantissa with at most 2 set bits or at most 2 clear bits or a boundary run; every int with its two neighbouring doubles and half-way point (quick: every 16th block); every float widened (quick: every 8th block)",
              "conversions: every int64 within 4 of +-2^k, every 2^k+-2^j, the full boundary neighbourhoods"};
  auto is = [](double v, vf::Ctx& c) {
    ++c.evals;
    if (dreal::is_integer(v) != RefInt(v)) c.Fail(vf::Cat("is_integer ", std::hexfloat, v), vf::Cat("is_integer(", v, ") = ", !RefInt(v)));
  };
  d.Add("is_integer-patterns", 4096, [&](int64_t u, vf::Ctx& c) {
    const uint64_t top = static_cast<uint64_t>(u) << 52, full = (1ull << 52) - 1;
    auto go = [&](uint64_t m) { ++c.transitions; is(D(top | m), c); is(D(top | (full & ~m)), c); };
    go(0);
    for (int i = 0; i < 52; ++i) {
      go(1ull << i);
      go((1ull << i) - 1);
      go(full & ~((1ull << i) - 1));
      for (int j = 0; j < i; ++j) { go(1ull << i | 1ull << j); go((1ull << i) - (1ull << j)); }
    }
    ++c.nontrivial;
    ++c.traces;
    c.StateHash(u);
    if (u == 1027) c.Sample("exponent field 1027");
  });
  const int64_t step = d.thorough ? 1 : 16;
  d.Add("is_integer-ints", 4096 / step, [&, step](int64_t u, vf::Ctx& c) {
    const int64_t lo = -(1ll << 31) + u * step * (1 << 20);
    for (int64_t i = lo; i < lo + (1 << 20); ++i) {
      const double v = static_cast<double>(i);
      c.evals += 4;
      const uint64_t b = B(v);
      if (!dreal::is_integer(v) || (i && (dreal::is_integer(D(b + 1)) || dreal::is_integer(D(b - 1)))) || dreal::is_integer(v + 0.5)) { is(v, c); is(D(b + 1), c); is(D(b - 1), c); is(v + 0.5, c); }
      ++c.transitions;
    }
    c.StateHash(u);
    ++c.traces;
  });
  const int64_t fs = d.thorough ? 1 : 8;
  d.Add("is_integer-floats", 4096 / fs, [&, fs](int64_t u, vf::Ctx& c) {
    const uint32_t lo = static_cast<uint32_t>(u * fs) << 20;
    for (uint32_t i = 0; i < 1u << 20; ++i) {
      const uint32_t b = lo | i;
      float f;
      memcpy(&f, &b, 4);
      ++c.transitions;
      is(f, c);
    }
    c.StateHash(u + 10000);
    ++c.traces;
  });
  // values around every boundary of the integer range
  std::vector<double> edge;
  for (double b : {0.0, 1.0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 9.2233720368547758e18, 1.8446744073709552e19, 1e300})
    for (int s = -1; s <= 1; s += 2) {
      double lo = b * s, hi = b * s;
      for (int i = 0; i < 200; ++i) { edge.push_back(lo); edge.push_back(hi); edge.push_back(b * s + 0.25 * i); edge.push_back(b * s - 0.25 * i); lo = std::nextafter(lo, -HUGE_VAL); hi = std::nextafter(hi, HUGE_VAL); }
    }
  for (double v : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan(""), -std::nan(""), 5e-324, -5e-324, std::numeric_limits<double>::max(), -0.0}) edge.push_back(v);
  d.Add("is_integer-edges", 4, [&](int64_t u, vf::Ctx& c) {
    const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    fesetround(modes[u]);
    for (double v : edge) { ++c.transitions; is(v, c); }
    fesetround(FE_TONEAREST);
    ++c.traces;
    c.StateHash(u + 20000);
  });
  std::vector<int64_t> w;
  {
    auto near = [&](__int128 x) { for (int k = -4; k <= 4; ++k) if (x + k >= INT64_MIN && x + k <= INT64_MAX) w.push_back(static_cast<int64_t>(x + k)); };
    for (int i = 0; i < 64; ++i)
      for (int s = -1; s <= 1; s += 2) {
        near(static_cast<__int128>(s) << i);
        for (int j = 0; j < i; ++j) { near(s * ((static_cast<__int128>(1) << i) + (static_cast<__int128>(1) << j))); near(s * ((static_cast<__int128>(1) << i) - (static_cast<__int128>(1) << j))); }
      }
    near(0);
    near(INT64_MAX);
    near(INT64_MIN);
    for (int i = -3000; i <= 3000; ++i) for (int64_t b : {int64_t{INT32_MAX}, int64_t{INT32_MIN}, int64_t{1} << 53, -(int64_t{1} << 53)}) w.push_back(b + i);
  }
  d.Add("conversions", 64, [&](int64_t u, vf::Ctx& c) {
    for (size_t i = u; i < w.size(); i += 64) {
      const int64_t v = w[i];
      c.Note(vf::Cat(v));
      ++c.transitions;
      c.evals += 2;
      int r = 0;
      bool t = false;
      try { r = dreal::convert_int64_to_int(v); } catch (const std::runtime_error&) { t = true; }
      const bool fits = v >= INT32_MIN && v <= INT32_MAX;
      if (t ? fits : (!fits || r != v)) c.Fail(vf::Cat("to_int ", v), vf::Cat("convert_int64_to_int(", v, ") ", t ? "is refused" : vf::Cat("= ", r)));
      t = false;
      double x = 0;
      try { x = dreal::convert_int64_to_double(v); } catch (const std::runtime_error&) { t = true; }
      if (!t && (x >= 9223372036854775808.0 || x < -9223372036854775808.0 || static_cast<int64_t>(x) != v)) c.Fail(vf::Cat("to_double ", v), vf::Cat("convert_int64_to_double(", v, ") = ", x));
      if (t && v >= -(int64_t{1} << 53) && v <= int64_t{1} << 53) c.Fail(vf::Cat("to_double refused ", v), vf::Cat("convert_int64_to_double(", v, ") is refused"));
      c.Outcome(vf::Cat(t, fits));
      ++c.traces;
    }
    c.StateHash(u + 30000);
  });
  // counters: every event sequence up to length 10
  d.Add("counters", 2 << 10, [&](int64_t u, vf::Ctx& c) {
    const bool on = u & 1;
    Counter k(on);
    int a = 0, b = 0;
    for (int i = 1; i <= 10; ++i) {
      if (u >> i & 1) { k.a(); ++a; } else { k.b(); ++b; }
      ++c.transitions;
      ++c.evals;
      if (k.x != (on ? a : 0) || k.y != (on ? b : 0) - 3 || k.enabled() != on) c.Fail(vf::Cat("counter ", u), "a counter disagrees with the events fed to it");
    }
    ++c.traces;
  });
  return d.Run();
}
