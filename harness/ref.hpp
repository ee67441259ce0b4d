// Reference (dense, long double) linear algebra and structured generators.
#pragma once
#ifndef VT
#define VT 0
#endif
#if VT == 0
#define VTN ".d"
#elif VT == 1
#define VTN ".s"
#elif VT == 2
#define VTN ".z"
#else
#define VTN ".c"
#endif
#include "pbt.hpp"

#include <hifir.hpp>

#include <algorithm>
#include <array>
#include <limits>
#include <numeric>
#include <set>

namespace {  // every value type has its own copy
#if VT == 0
typedef double V;
#elif VT == 1
typedef float V;
#elif VT == 2
typedef std::complex<double> V;
#else
typedef std::complex<float> V;
#endif
constexpr bool IS_CPLX   = VT >= 2;
constexpr bool IS_SINGLE = VT == 1 || VT == 3;
typedef typename std::conditional<IS_SINGLE, float, double>::type R;
constexpr long double EPS = std::numeric_limits<R>::epsilon();

// reference scalar: long double real for real types, complex otherwise
typedef typename std::conditional<IS_CPLX, std::complex<long double>, long double>::type X;
typedef long double                                                                      LR;

inline LR conj_(LR a) { return a; }
inline std::complex<LR> conj_(const std::complex<LR> &a) { return std::conj(a); }
inline LR up(double a) { return a; }
inline LR up(float a) { return a; }
inline LR up(LR a) { return a; }
inline std::complex<LR> up(const std::complex<double> &a) { return {a.real(), a.imag()}; }
inline std::complex<LR> up(const std::complex<float> &a) { return {a.real(), a.imag()}; }
inline std::complex<LR> up(const std::complex<LR> &a) { return a; }
inline bool finite_(LR a) { return std::isfinite(a); }
inline bool finite_(const std::complex<LR> &a) { return std::isfinite(a.real()) && std::isfinite(a.imag()); }
template <class T>
inline bool biteq(const T &a, const T &b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T>
struct Down;
template <>
struct Down<double> {
  template <class S>
  static double f(const S &s) { return (double)std::real(s); }
};
template <>
struct Down<float> {
  template <class S>
  static float f(const S &s) { return (float)std::real(s); }
};
template <>
struct Down<std::complex<double>> {
  template <class S>
  static std::complex<double> f(const S &s) { return {(double)std::real(s), (double)std::imag(s)}; }
};
template <>
struct Down<std::complex<float>> {
  template <class S>
  static std::complex<float> f(const S &s) { return {(float)std::real(s), (float)std::imag(s)}; }
};

typedef std::vector<X> Vec;

struct Mat {
  size_t         m = 0, n = 0;
  std::vector<X> a;
  Mat() {}
  Mat(size_t m_, size_t n_) : m(m_), n(n_), a(m_ * n_, X(0)) {}
  X &      operator()(size_t i, size_t j) { return a[i * n + j]; }
  const X &operator()(size_t i, size_t j) const { return a[i * n + j]; }
  static Mat eye(size_t n) {
    Mat e(n, n);
    for (size_t i = 0; i < n; ++i) e(i, i) = X(1);
    return e;
  }
  Mat H() const {
    Mat t(n, m);
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < n; ++j) t(j, i) = conj_((*this)(i, j));
    return t;
  }
  Mat T() const {
    Mat t(n, m);
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < n; ++j) t(j, i) = (*this)(i, j);
    return t;
  }
  LR maxabs() const {
    LR v = 0;
    for (auto &x : a) v = std::max(v, (LR)std::abs(x));
    return v;
  }
  LR normInf() const {
    LR v = 0;
    for (size_t i = 0; i < m; ++i) {
      LR s = 0;
      for (size_t j = 0; j < n; ++j) s += std::abs((*this)(i, j));
      v = std::max(v, s);
    }
    return v;
  }
  LR norm1() const { return T().normInf(); }
  Mat sub(size_t i0, size_t i1, size_t j0, size_t j1) const {
    Mat s(i1 - i0, j1 - j0);
    for (size_t i = i0; i < i1; ++i)
      for (size_t j = j0; j < j1; ++j) s(i - i0, j - j0) = (*this)(i, j);
    return s;
  }
};
inline Mat operator*(const Mat &A, const Mat &B) {
  Mat C(A.m, B.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t k = 0; k < A.n; ++k) {
      X v = A(i, k);
      if (v == X(0)) continue;
      for (size_t j = 0; j < B.n; ++j) C(i, j) += v * B(k, j);
    }
  return C;
}
inline Mat operator-(const Mat &A, const Mat &B) {
  Mat C = A;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] -= B.a[i];
  return C;
}
inline Mat operator+(const Mat &A, const Mat &B) {
  Mat C = A;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += B.a[i];
  return C;
}
inline Vec operator*(const Mat &A, const Vec &x) {
  Vec y(A.m, X(0));
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j) y[i] += A(i, j) * x[j];
  return y;
}
inline LR vmax(const Vec &v) {
  LR s = 0;
  for (auto &x : v) {
    if (!finite_(x)) return std::numeric_limits<LR>::infinity();
    s = std::max(s, (LR)std::abs(x));
  }
  return s;
}
inline LR vdist(const Vec &a, const Vec &b) {
  LR s = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    LR d = std::abs(a[i] - b[i]);
    if (!(d <= std::numeric_limits<LR>::max())) return std::numeric_limits<LR>::infinity();
    s = std::max(s, d);
  }
  return s;
}

// LU with partial pivoting; returns false if exactly singular
struct LU {
  Mat                 f;
  std::vector<size_t> p;
  bool                ok = true;
  explicit LU(const Mat &A) : f(A), p(A.m) {
    size_t n = A.m;
    std::iota(p.begin(), p.end(), 0);
    for (size_t k = 0; k < n; ++k) {
      size_t r = k;
      for (size_t i = k + 1; i < n; ++i)
        if (std::abs(f(i, k)) > std::abs(f(r, k))) r = i;
      if (!(std::abs(f(r, k)) > 0)) { ok = false; return; }
      if (r != k) {
        for (size_t j = 0; j < n; ++j) std::swap(f(r, j), f(k, j));
        std::swap(p[r], p[k]);
      }
      for (size_t i = k + 1; i < n; ++i) {
        if (f(i, k) == X(0)) continue;
        X l = f(i, k) /= f(k, k);
        for (size_t j = k + 1; j < n; ++j) f(i, j) -= l * f(k, j);
      }
    }
  }
  Vec solve(const Vec &b) const {
    size_t n = f.m;
    Vec    x(n);
    for (size_t i = 0; i < n; ++i) {
      x[i] = b[p[i]];
      for (size_t j = 0; j < i; ++j) x[i] -= f(i, j) * x[j];
    }
    for (size_t i = n; i-- > 0;) {
      for (size_t j = i + 1; j < n; ++j) x[i] -= f(i, j) * x[j];
      x[i] /= f(i, i);
    }
    return x;
  }
  Mat inverse() const {
    size_t n = f.m;
    Mat    I(n, n);
    for (size_t j = 0; j < n; ++j) {
      Vec e(n, X(0));
      e[j]  = 1;
      Vec x = solve(e);
      for (size_t i = 0; i < n; ++i) I(i, j) = x[i];
    }
    return I;
  }
};
inline LR condInf(const Mat &A) {
  LU lu(A);
  if (!lu.ok) return std::numeric_limits<LR>::infinity();
  return A.normInf() * lu.inverse().normInf();
}
// singular values by one-sided Jacobi (descending)
inline std::vector<LR> svals(Mat A) {
  if (A.m < A.n) A = A.H();
  size_t n = A.n;
  for (int sweep = 0; sweep < 60; ++sweep) {
    LR off = 0;
    for (size_t p = 0; p < n; ++p)
      for (size_t q = p + 1; q < n; ++q) {
        LR al = 0, be = 0;
        X  ga = 0;
        for (size_t i = 0; i < A.m; ++i) {
          al += std::norm(A(i, p));
          be += std::norm(A(i, q));
          ga += conj_(A(i, p)) * A(i, q);
        }
        LR g = std::abs(ga);
        if (g == 0 || g * g <= 1e-34L * al * be) continue;
        off     = std::max(off, g / std::sqrt(al * be));
        X  ph   = ga / g;
        LR zeta = (be - al) / (2 * g);
        LR t    = (zeta >= 0 ? 1 : -1) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta));
        LR c = 1 / std::sqrt(1 + t * t), s = c * t;
        for (size_t i = 0; i < A.m; ++i) {
          X u = A(i, p), v = A(i, q) * conj_(ph);
          A(i, p) = c * u - s * v;
          A(i, q) = s * u + c * v;
        }
      }
    if (off < 1e-16L) break;
  }
  std::vector<LR> r(n);
  for (size_t j = 0; j < n; ++j) {
    LR s = 0;
    for (size_t i = 0; i < A.m; ++i) s += std::norm(A(i, j));
    r[j] = std::sqrt(s);
  }
  std::sort(r.rbegin(), r.rend());
  return r;
}

// ---------------------------------------------------------------- generators
// sparse matrix as sorted rows of (col, value)
struct Sp {
  size_t                                     m = 0, n = 0;
  std::vector<std::vector<std::pair<int, V>>> r;
  Sp() {}
  Sp(size_t m_, size_t n_) : m(m_), n(n_), r(m_) {}
  size_t nnz() const {
    size_t k = 0;
    for (auto &x : r) k += x.size();
    return k;
  }
  V *find(size_t i, size_t j) {
    for (auto &e : r[i])
      if (e.first == (int)j) return &e.second;
    return nullptr;
  }
  void set(size_t i, size_t j, V v) {
    if (V *p = find(i, j)) { *p = v; return; }
    auto it = r[i].begin();
    while (it != r[i].end() && it->first < (int)j) ++it;
    r[i].insert(it, {(int)j, v});
  }
  Mat dense() const {
    Mat A(m, n);
    for (size_t i = 0; i < m; ++i)
      for (auto &e : r[i]) A(i, e.first) += up(e.second);
    return A;
  }
  Sp T(bool herm = false) const {
    Sp t(n, m);
    for (size_t i = 0; i < m; ++i)
      for (auto &e : r[i]) t.r[e.first].push_back({(int)i, herm ? hif::conjugate(e.second) : e.second});
    return t;
  }
  template <class I = int, class P = std::ptrdiff_t, class VV = V>
  hif::CRS<VV, I, P> crs(int base = 0) const {
    hif::CRS<VV, I, P> A(m, n);
    A.row_start().resize(m + 1);
    A.col_ind().resize(nnz());
    A.vals().resize(nnz());
    size_t k = 0;
    A.row_start()[0] = base;
    for (size_t i = 0; i < m; ++i) {
      for (auto &e : r[i]) {
        A.col_ind()[k] = e.first + base;
        A.vals()[k]    = Down<VV>::f(e.second);
        ++k;
      }
      A.row_start()[i + 1] = (P)k + base;
    }
    return A;
  }
  template <class I = int, class P = std::ptrdiff_t, class VV = V>
  hif::CCS<VV, I, P> ccs(int base = 0) const {
    Sp                 t = T();
    hif::CCS<VV, I, P> A(m, n);
    A.col_start().resize(n + 1);
    A.row_ind().resize(nnz());
    A.vals().resize(nnz());
    size_t k = 0;
    A.col_start()[0] = base;
    for (size_t i = 0; i < n; ++i) {
      for (auto &e : t.r[i]) {
        A.row_ind()[k] = e.first + base;
        A.vals()[k]    = Down<VV>::f(e.second);
        ++k;
      }
      A.col_start()[i + 1] = (P)k + base;
    }
    return A;
  }
  void describe(std::ostream &os) const {
    os << m << "x" << n << " nnz=" << nnz() << "{";
    size_t k = 0;
    for (size_t i = 0; i < m && k < 80; ++i)
      for (auto &e : r[i]) {
        if (k++ >= 80) { os << " ..."; break; }
        os << " (" << i << "," << e.first << ")=" << e.second;
      }
    os << "}";
  }
};

// a real number: simplest is 1; mostly tame, sometimes wide
inline double gen_real(Src &s, int wide = 0) {
  switch (s.below(wide ? 6 : 4)) {
    case 0: return (double)s.pick({1, -1, 2, -2, 3});
    case 1: return (double)(1 + (int)s.below(9)) * (s.chance(1, 2) ? -1 : 1);
    case 2: return (0.05 + 1.95 * s.unit()) * (s.chance(1, 2) ? -1 : 1);
    case 3: return (0.05 + 1.95 * s.unit()) * (s.chance(1, 2) ? -1 : 1);
    default: return std::ldexp(0.5 + 0.5 * s.unit(), (int)s.below(2 * wide + 1) - wide) * (s.chance(1, 2) ? -1 : 1);
  }
}
template <class T>
struct GenVal {
  static T f(Src &s, int wide) { return (T)gen_real(s, wide); }
};
template <class T>
struct GenVal<std::complex<T>> {
  static std::complex<T> f(Src &s, int wide) {
    double re = gen_real(s, wide);
    double im = s.chance(4, 5) ? gen_real(s, wide) : 0.;
    return {(T)re, (T)im};
  }
};
inline V gen_val(Src &s, int wide = 0) { return GenVal<V>::f(s, wide); }
inline V gen_valz(Src &s) { return s.chance(1, 12) ? V(0) : gen_val(s); }

inline Vec gen_vec_x(Src &s, size_t n) {
  Vec v(n);
  int k = s.below(4);
  for (size_t i = 0; i < n; ++i) v[i] = up(k == 0 ? V(1) : k == 1 ? V((R)(1 + i % 7)) : gen_val(s));
  return v;
}
inline hif::Array<V> gen_arr(Src &s, size_t n) {
  Vec           v = gen_vec_x(s, n);
  hif::Array<V> a(n);
  for (size_t i = 0; i < n; ++i) a[i] = Down<V>::f(v[i]);
  return a;
}
template <class T>
inline Vec lift(const hif::Array<T> &a) {
  Vec v(a.size());
  for (size_t i = 0; i < a.size(); ++i) v[i] = up(a[i]);
  return v;
}

enum Kind { K_DIAGDOM, K_RANDOM, K_BAND, K_LAP2D, K_CONVDIFF, K_ARROW, K_SADDLE, K_PERMUTED, K_BLOCK, K_GRADED, K_DENSE, K_COUNT };
inline const char *kind_name(int k) {
  static const char *n[] = {"diagdom", "random", "band", "lap2d", "convdiff", "arrow", "saddle", "permuted", "block", "graded", "dense"};
  return n[k];
}
struct GenMat {
  Sp  A;
  int kind;
};
// off-diagonal sprinkle
inline void sprinkle(Src &s, Sp &A, int per_row) {
  size_t n = A.n;
  if (!n) return;
  for (size_t i = 0; i < A.m; ++i) {
    int k = s.below(per_row + 1);
    while (k--) A.set(i, s.below(n), gen_val(s));
  }
}
inline void dominate(Src &s, Sp &A, double f) {
  for (size_t i = 0; i < A.m; ++i) {
    double t = 0;
    for (auto &e : A.r[i])
      if (e.first != (int)i) t += std::abs(e.second);
    V d = Down<V>::f(X((LR)((f * t + 1) * (s.chance(1, 4) ? -1 : 1))));
    if (IS_CPLX && s.chance(1, 3)) d *= Down<V>::f(std::complex<LR>(0.6L, 0.8L));
    A.set(i, i, d);
  }
}
inline GenMat gen_square(Src &s, size_t nmax, bool tame = false) {
  GenMat g;
  g.kind   = s.below(tame ? K_ARROW + 1 : K_COUNT);
  size_t n = 1 + s.below(nmax);
  Sp     A(n, n);
  switch (g.kind) {
    case K_DIAGDOM:
      sprinkle(s, A, 1 + s.below(5));
      dominate(s, A, s.pick({1.0, 0.5, 0.3, 2.0}));
      break;
    case K_RANDOM:
      sprinkle(s, A, 2 + s.below(5));
      for (size_t i = 0; i < n; ++i)
        if (s.chance(4, 5)) A.set(i, i, gen_val(s));
      break;
    case K_BAND: {
      int lo = s.below(4), hi = s.below(4);
      for (size_t i = 0; i < n; ++i)
        for (int j = (int)i - lo; j <= (int)i + hi; ++j)
          if (j >= 0 && j < (int)n && (j == (int)i || s.chance(5, 6))) A.set(i, j, gen_val(s));
      if (s.chance(1, 2)) dominate(s, A, 0.6);
      break;
    }
    case K_LAP2D: {
      size_t k = std::max<size_t>(1, (size_t)std::sqrt((double)n));
      n        = k * k;
      A        = Sp(n, n);
      V shift  = s.chance(1, 2) ? V(0) : Down<V>::f(X((LR)s.pick({0.1, 1.0, -0.3, -2.0})));
      for (size_t i = 0; i < k; ++i)
        for (size_t j = 0; j < k; ++j) {
          size_t q = i * k + j;
          if (i) A.set(q, q - k, V(-1));
          if (j) A.set(q, q - 1, V(-1));
          A.set(q, q, V(4) + shift);
          if (j + 1 < k) A.set(q, q + 1, V(-1));
          if (i + 1 < k) A.set(q, q + k, V(-1));
        }
      break;
    }
    case K_CONVDIFF: {
      R c = (R)s.pick({0.5, 2.0, 5.0, 20.0});
      for (size_t i = 0; i < n; ++i) {
        A.set(i, i, V(4));
        if (i) A.set(i, i - 1, V(-1) - V(c));
        if (i + 1 < n) A.set(i, i + 1, V(-1) + V(c));
        if (i + 3 < n && s.chance(1, 2)) A.set(i, i + 3, gen_val(s));
      }
      break;
    }
    case K_ARROW:
      for (size_t i = 0; i < n; ++i) {
        A.set(i, i, gen_val(s));
        if (i + 1 < n) {
          A.set(i, n - 1, gen_val(s));
          A.set(n - 1, i, gen_val(s));
        }
      }
      if (s.chance(1, 2)) {  // arrow head first
        Sp B(n, n);
        for (size_t i = 0; i < n; ++i)
          for (auto &e : A.r[i]) B.set(n - 1 - i, n - 1 - e.first, e.second);
        A = B;
      }
      break;
    case K_SADDLE: {
      size_t k = n / 3, h = n - k;
      for (size_t i = 0; i < h; ++i) {
        A.set(i, i, V((R)(2 + s.below(3))));
        if (i + 1 < h && s.chance(3, 4)) { V v = gen_val(s); A.set(i, i + 1, v); A.set(i + 1, i, hif::conjugate(v)); }
      }
      for (size_t j = 0; j < k; ++j) {
        for (int c = 0; c < 3; ++c) {
          size_t i = (2 * j + c) % h;
          V      v = gen_val(s);
          A.set(h + j, i, v);
          A.set(i, h + j, hif::conjugate(v));
        }
      }
      break;
    }
    case K_PERMUTED: {  // a dominant transversal far from the diagonal
      std::vector<int> p(n);
      std::iota(p.begin(), p.end(), 0);
      for (size_t i = n; i-- > 1;) std::swap(p[i], p[s.below(i + 1)]);
      sprinkle(s, A, 3);
      for (size_t i = 0; i < n; ++i) A.set(i, p[i], V((R)(5 + s.below(5))));
      break;
    }
    case K_BLOCK: {
      size_t b = 1 + s.below(4);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = (i / b) * b; j < std::min(n, (i / b) * b + b); ++j)
          if (i == j || s.chance(3, 4)) A.set(i, j, gen_val(s));
      break;
    }
    case K_GRADED: {
      sprinkle(s, A, 3);
      for (size_t i = 0; i < n; ++i) A.set(i, i, gen_val(s));
      int w = IS_SINGLE ? 2 : 5;
      std::vector<int> a(n), b(n);
      for (auto &x : a) x = (int)s.below(2 * w + 1) - w;
      for (auto &x : b) x = (int)s.below(2 * w + 1) - w;
      for (size_t i = 0; i < n; ++i)
        for (auto &e : A.r[i]) e.second *= (R)std::ldexp(1.0, a[i] + b[e.first]);
      break;
    }
    default:
      n = std::min<size_t>(n, 14);
      A = Sp(n, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) A.set(i, j, gen_val(s));
  }
  // occasionally store explicit zeros
  if (s.chance(1, 10)) {
    int k = 1 + s.below(3);
    while (k--) {
      size_t i = s.below(n), j = s.below(n);
      if (!A.find(i, j)) A.set(i, j, V(0));
    }
  }
  g.A = A;
  return g;
}
// make it Hermitian (pattern and values)
inline Sp hermitize(const Sp &A) {
  Sp B(A.n, A.n);
  for (size_t i = 0; i < A.n; ++i)
    for (auto &e : A.r[i]) {
      if ((size_t)e.first == i) B.set(i, i, Down<V>::f(X(std::real(up(e.second)))));
      else if ((size_t)e.first > i) {
        B.set(i, e.first, e.second);
        B.set(e.first, i, hif::conjugate(e.second));
      } else if (!const_cast<Sp &>(A).find(e.first, i)) {
        B.set(i, e.first, e.second);
        B.set(e.first, i, hif::conjugate(e.second));
      }
    }
  return B;
}

inline void desc_params(std::ostream &os, const hif::Params &p) {
  os << " params{tau=" << p.tau_L << "/" << p.tau_U << " kappa=" << p.kappa_d << "/" << p.kappa << " alpha=" << p.alpha_L
     << "/" << p.alpha_U << " rho=" << p.rho << " c_d=" << p.c_d << " N=" << p.N << " rf=" << p.rf_par << " reorder=" << p.reorder
     << " pre_scale=" << p.pre_scale << " symm_pre=" << p.symm_pre_lvls << " thr=" << p.threads << " fat=" << p.fat_schur_1st
     << " rrqr=" << p.rrqr_cond << " pivot=" << p.pivot << " gamma=" << p.gamma << " beta=" << p.beta << " is_symm=" << p.is_symm << " spd=" << p.spd
     << " no_pre=" << p.no_pre << " nzp=" << p.nzp_thres << " dense_thres=" << p.dense_thres << " check=" << p.check << "}";
}
// configuration generator; exact => nothing may be dropped
inline hif::Params gen_params(Src &s, bool exact, bool multilevel_bias = true) {
  hif::Params p = hif::DEFAULT_PARAMS;
  p.verbose     = 0;
  if (exact) {
    p.tau_L = p.tau_U = 0;
    p.alpha_L = p.alpha_U = 200;
  } else {
    p.tau_L   = s.pick({1e-4, 1e-2, 1e-1, 0.0, 1e-3});
    p.tau_U   = s.chance(3, 4) ? p.tau_L : s.pick({1e-4, 1e-2, 1e-1, 0.0});
    p.alpha_L = s.pick({10.0, 3.0, 1.0, 2.0, 5.0, 200.});
    p.alpha_U = s.chance(3, 4) ? p.alpha_L : s.pick({10.0, 3.0, 1.0, 2.0});
  }
  if (multilevel_bias && s.chance(3, 4)) {
    p.c_d         = s.pick({0.0, 0.5, 1.0});
    p.rho         = 1e10;
    p.dense_thres = 1 + (int)s.below(6);
  } else if (s.chance(1, 2))
    p.dense_thres = (int)s.pick({2000, 0, 1, 20});
  p.pivot   = s.pick({(int)hif::PIVOTING_AUTO, (int)hif::PIVOTING_OFF, (int)hif::PIVOTING_ON});
  p.reorder = s.pick({(int)hif::REORDER_AMD, (int)hif::REORDER_OFF, (int)hif::REORDER_AUTO, (int)hif::REORDER_RCM});
  if (s.chance(1, 2)) p.symm_pre_lvls = s.pick({-2, 0, 1, 2, 5, -1, -5});
  if (s.chance(1, 2)) p.kappa = s.pick({3.0, 1.5, 5.0, 10.0, 2.0});
  if (s.chance(1, 2)) p.kappa_d = s.pick({3.0, 1.5, 5.0, 10.0, 2.0});
  if (s.chance(1, 4)) p.no_pre = 1;
  if (s.chance(1, 3)) p.rf_par = 0;
  if (s.chance(1, 4)) p.fat_schur_1st = 1;
  if (s.chance(1, 4)) p.gamma = s.pick({1.0, 0.1, 2.0, 0.5, 10.0});
  if (s.chance(1, 4)) p.beta = s.pick({1e3, 1e8, 10.0, 0.0});
  if (s.chance(1, 6)) p.nzp_thres = s.pick({0.65, 0.0, 1.0, 0.3});
  if (s.chance(1, 6)) p.N = s.pick({-1, 1, 5, 100});
  return p;
}
}  // namespace
