// Small property-based testing kernel.
//
// A property is a function of a *choice sequence* (Src).  In random mode the
// choices come from a splitmix/xorshift generator seeded by (VERIF_SEED,
// property name, case index); in replay mode they come from a file.  Shrinking
// works on the choice sequence (delete / zero / lower), so every property gets
// it for free, and a crash (ASan report, signal, time-out) shrinks exactly like
// an assertion because each attempt runs in a forked child.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string msg;
};

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

class Src {
 public:
  std::vector<uint64_t> rec;
  std::vector<uint64_t> in;
  bool                  replay = false;
  size_t                pos    = 0;
  uint64_t              st     = 0;
  // mirror of the record (so that a parent can see it after a crash)
  uint64_t *mirror = nullptr, *mirror_n = nullptr;
  size_t    mirror_cap = 0;

  explicit Src(uint64_t seed) : st(seed) {}
  explicit Src(const std::vector<uint64_t> &c) : in(c), replay(true) {}

  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay) {
      v = pos < in.size() ? in[pos] : 0;
      ++pos;
      if (v >= n) v = v % n;
    } else {
      st = st + 0x9e3779b97f4a7c15ull;
      v  = mix64(st) % n;
    }
    rec.push_back(v);
    if (mirror && rec.size() <= mirror_cap) {
      mirror[rec.size() - 1] = v;
      *mirror_n              = rec.size();
    }
    return v;
  }
  // integer in [lo,hi]; shrinks to lo
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo + 1));
  }
  // true with probability num/den; shrinks to false
  bool chance(int num, int den) {
    return (int64_t)below(den) >= den - num;
  }
  double unit() { return (double)below(1 << 20) / (double)(1 << 20); }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  template <class C>
  const typename C::value_type &pickv(const C &c) {
    return c[below(c.size())];
  }
};

struct Ctx {
  bool                        nontriv = false;
  std::ostringstream          desc;
  std::map<std::string, long> labels;
  std::string                 known;  // set when the failure is a listed finding
  void                        nontrivial(bool b = true) {
    if (b) nontriv = true;
  }
  void label(const std::string &s) { ++labels[s]; }
};

typedef void (*PropFn)(Src &, Ctx &);
struct Prop {
  std::string name;
  PropFn      fn;
  long        quick, thorough;  // number of cases
};
std::vector<Prop> &registry();
struct Reg {
  Reg(const std::string &n, PropFn f, long q, long t) {
    registry().push_back(Prop{n, f, q, t});
  }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#ifndef VTN
#define VTN ""
#endif
#define PBT_PROP(NAME, QUICK, THOROUGH)                                  \
  static void PBT_CAT(prop_, NAME)(pbt::Src & src, pbt::Ctx & ctx);      \
  static pbt::Reg PBT_CAT(reg_, NAME)(std::string(#NAME) + VTN,          \
                                      &PBT_CAT(prop_, NAME), QUICK,      \
                                      THOROUGH);                         \
  static void PBT_CAT(prop_, NAME)(pbt::Src & src, pbt::Ctx & ctx)

#define CHECK(c, ...)                                              \
  do {                                                             \
    if (!(c)) {                                                    \
      std::ostringstream os_;                                      \
      os_ << "check failed: " #c " at " << __LINE__ << ": "        \
          << __VA_ARGS__;                                          \
      pbt::fail(os_.str());                                        \
    }                                                              \
  } while (0)

}  // namespace pbt
using pbt::Ctx;
using pbt::Src;
