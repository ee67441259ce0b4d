// P23: one build configuration of the library behind a function of its own. The including file defines the
// configuration's macros, P23_FN and renames the namespace, so that all configurations live in one program.
#ifndef VT
#define VT 0
#endif
#include "p23_iface.hpp"
#include <hifir.hpp>
namespace {
#if VT == 0
typedef double TV;
typedef double TW;
#elif VT == 1
typedef float  TV;
typedef double TW;
#elif VT == 2
typedef std::complex<double> TV;
typedef std::complex<double> TW;
#else
typedef std::complex<float>  TV;
typedef std::complex<double> TW;
#endif
template <class T>
void put(std::vector<long double> &o, const T &v) { o.push_back((long double)v); }
template <class T>
void put(std::vector<long double> &o, const std::complex<T> &v) { o.push_back(v.real()), o.push_back(v.imag()); }
template <class A>
void arr(P23Obs &o, const std::string &name, const A &a, size_t n) {
  o.emplace_back(name, std::vector<long double>());
  for (size_t i = 0; i < n; ++i) put(o.back().second, a[i]);
}
template <class CS>
void mat(P23Obs &o, const std::string &name, const CS &A) {
  arr(o, name + ".start", A.ind_start(), A.ind_start().size());
  size_t nz = A.ind_start().size() ? A.ind_start()[A.ind_start().size() - 1] : 0;
  arr(o, name + ".inds", A.inds(), nz);
  arr(o, name + ".vals", A.vals(), nz);
}
inline void conv(const P23Num &x, double &v) { v = x.first; }
inline void conv(const P23Num &x, float &v) { v = x.first; }
template <class T>
void conv(const P23Num &x, std::complex<T> &v) { v = std::complex<T>(x.first, x.second); }
template <class T>
hif::Array<T> vec(const std::vector<P23Num> &x) {
  hif::Array<T> a(x.size());
  for (size_t i = 0; i < x.size(); ++i) conv(x[i], a[i]);
  return a;
}
template <class M>
void observe(P23Obs &o, M &h, const P23Case &c) {
  const size_t n = c.n;
  o.emplace_back("counts", std::vector<long double>{(long double)h.levels(), (long double)h.nnz(), (long double)h.nnz_ef(), (long double)h.nnz_ldu(), (long double)h.rank(), (long double)h.schur_rank(), (long double)h.schur_size(), (long double)h.nrows(), (long double)h.ncols()});
  o.emplace_back("stats", std::vector<long double>());
  for (int i = 0; i < 6; ++i) o.back().second.push_back((long double)h.stats(i));
  int l = 0;
  for (auto &p : h.precs()) {
    std::string k = "level " + std::to_string(++l) + " ";
    o.emplace_back(k + "sizes", std::vector<long double>{(long double)p.m, (long double)p.n});
    if (p.m) {
      mat(o, k + "L_B", p.L_B), mat(o, k + "U_B", p.U_B);
      arr(o, k + "d_B", p.d_B, p.m);
    }
    if (p.m && p.m < p.n) mat(o, k + "E", p.E), mat(o, k + "F", p.F);
    arr(o, k + "s", p.s, p.n), arr(o, k + "t", p.t, p.n);
    arr(o, k + "p", p.p, p.n), arr(o, k + "q", p.q, p.n);
  }
}
template <class M, class A>
void apply(P23Obs &o, M &h, const A &a, const P23Case &c) {
  const size_t   n = c.n;
  hif::Array<TV> b = vec<TV>(c.b), x(n);
  hif::Array<TW> bw = vec<TW>(c.b), xw(n);
  h.solve(b, x);
  arr(o, "solve", x, n);
  h.solve(b, x, true);
  arr(o, "solve transposed", x, n);
  h.solve(bw, xw);
  arr(o, "solve wide", xw, n);
  h.mmultiply(b, x);
  arr(o, "product", x, n);
  h.mmultiply(b, x, true);
  arr(o, "product transposed", x, n);
  hif::Array<std::array<TV, 3>> B(n), Y(n);
  for (size_t i = 0; i < n; ++i) B[i][0] = b[i], B[i][1] = b[n - 1 - i], B[i][2] = TV(1);
  h.solve_mrhs(B, Y);
  for (int k = 0; k < 3; ++k) {
    for (size_t i = 0; i < n; ++i) x[i] = Y[i][k];
    arr(o, "solve_mrhs " + std::to_string(k), x, n);
  }
  h.hifir(a, b, c.N, x);
  arr(o, "hifir", x, n);
  h.hifir(a, b, c.N, x, true);
  arr(o, "hifir transposed", x, n);
  auto f = h.hifir(a, b, c.N, c.betas, x);
  arr(o, "hifir bounded", x, n);
  o.emplace_back("hifir bounded counts", std::vector<long double>{(long double)f.first, (long double)f.second});
}
}  // namespace
P23Obs P23_FN(const P23Case &c) {
  P23Obs      o;
  hif::Params p = hif::DEFAULT_PARAMS;
  if (c.params.size() != sizeof p) abort();
  memcpy((void *)&p, c.params.data(), sizeof p);
  hif::HIF<TV> h;
  auto         v = vec<TV>(c.vals);
  std::vector<std::ptrdiff_t> ptr = c.ptr;
  std::vector<int>            ind = c.ind;
  hif::CRS<TV, int> R(c.n, c.n, ptr.data(), ind.data(), v.data(), true);
  hif::CCS<TV, int> C(c.n, c.n, ptr.data(), ind.data(), v.data(), true);
  try {
    c.ccs ? h.factorize(C, p, c.m0) : h.factorize(R, p, c.m0);
  } catch (const std::exception &e) {
    o.emplace_back("rejected", std::vector<long double>());
    if (getenv("P23_MSG")) fprintf(stderr, "%s\n", e.what());
    return o;
  }
  observe(o, h, c);
  try {
    c.ccs ? apply(o, h, C, c) : apply(o, h, R, c);
  } catch (const std::exception &e) {
    o.emplace_back(std::string("failed"), std::vector<long double>());
    if (getenv("P23_MSG")) fprintf(stderr, "%s\n", e.what());
  }
  return o;
}
