// P14: matrix-vector products and triangular solves of compressed storage against dense arithmetic with
// running error bounds.
#include "ref.hpp"

namespace {
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
template <class T>
struct Rnd {
  static T f(Lcg &g) { return T(g.unit() * 2 - 1); }
};
template <class T>
struct Rnd<std::complex<T>> {
  static std::complex<T> f(Lcg &g) { double a = g.unit() * 2 - 1; return std::complex<T>(T(a), T(g.unit() * 2 - 1)); }
};
template <class T>
struct EpsOf { static LR v() { return std::numeric_limits<T>::epsilon(); } };
template <class T>
struct EpsOf<std::complex<T>> { static LR v() { return std::numeric_limits<T>::epsilon(); } };

// upper: 0 any shape, 1 strictly lower, 2 strictly upper
inline Sp gen_sp(Lcg &g, size_t m, size_t n, int tri, double dens, double mag) {
  Sp A(m, n);
  for (size_t i = 0; i < m; ++i) {
    if (g.unit() < 0.06) continue;
    for (size_t j = 0; j < n; ++j) {
      if ((tri == 1 && j >= i) || (tri == 2 && j <= i)) continue;
      if (g.unit() < dens) A.r[i].push_back({(int)j, Down<V>::f(up(Rnd<V>::f(g)) * (LR)mag)});
    }
  }
  return A;
}
template <class W>
void cmp(const X &want, LR scale, size_t k, const W &got, LR eps, const char *what, size_t i) {
  LR b = (4 * k + 16) * eps * scale + (EpsOf<W>::v() > eps ? 4 * EpsOf<W>::v() * std::abs(want) + 1e-37L : 0) + 1e-300L;
  LR d = std::abs(up(got) - want);
  CHECK(d <= b, what << ": component " << i << " is " << got << ", dense arithmetic gives " << want << " (difference " << d << ", bound " << b << ")");
}
template <class CS, class Wx, class Wy>
struct Range {  // partial products exist for row storage only
  static void f(Src &, Lcg &, const Sp &, const CS &, LR) {}
};
template <class I, class P, class Wx, class Wy>
struct Range<hif::CRS<V, I, P>, Wx, Wy> {
  static void f(Src &s, Lcg &g, const Sp &m, const hif::CRS<V, I, P> &A, LR eps) {
    if (!m.m) return;
    eps = std::min(EPS, std::min(EpsOf<Wx>::v(), EpsOf<Wy>::v()));  // rows are summed in the widest type
    Mat    D = m.dense();
    size_t i0 = s.below(m.m), len = s.below(m.m - i0 + 1);
    hif::Array<Wx> x(m.n);
    for (auto &v : x) v = Rnd<Wx>::f(g);
    hif::Array<Wy> y(m.m);
    for (auto &v : y) v = Wy(77);
    A.multiply_nt(x, i0, len, y);
    hif::Array<std::array<Wx, 3>> x3(m.n);
    hif::Array<std::array<Wy, 3>> y3(m.m);
    for (auto &v : x3) for (auto &w : v) w = Rnd<Wx>::f(g);
    for (auto &v : y3) for (auto &w : v) w = Wy(78);
    A.multiply_mrhs_nt(x3, i0, len, y3);
    for (size_t i = 0; i < m.m; ++i) {
      if (i < i0 || i >= i0 + len) {
        CHECK(biteq(y[i], Wy(77)) && biteq(y3[i][0], Wy(78)) && biteq(y3[i][2], Wy(78)), "a partial product changed row " << i << " outside of [" << i0 << "," << i0 + len << ")");
        continue;
      }
      X  t = 0, u = 0;
      LR st = 0, su = 0;
      for (size_t j = 0; j < m.n; ++j) { t += D(i, j) * up(x[j]); st += std::abs(D(i, j)) * std::abs(up(x[j])); u += D(i, j) * up(x3[j][1]); su += std::abs(D(i, j)) * std::abs(up(x3[j][1])); }
      cmp(t, st, m.r[i].size(), y[i], eps, "partial product", i);
      cmp(u, su, m.r[i].size(), y3[i][1], eps, "partial product of several vectors", i);
    }
    if (s.chance(1, 3)) {
      bool threw = false;
      try { A.multiply_nt(x, i0, m.m - i0 + 1, y); } catch (const std::exception &) { threw = true; }
      CHECK(threw, "a partial product beyond the last row was accepted");
    }
  }
};
template <class CS, class Wx, class Wy, size_t N>
void products(Src &s, Ctx &ctx, const Sp &m, const CS &A, Lcg &g) {
  Mat  D   = m.dense();
  Sp   t   = m.T();
  LR   eps = std::max(EPS, std::max(EpsOf<Wx>::v(), EpsOf<Wy>::v()));
  bool tran = s.chance(1, 2);
  int  nt = s.pick({1, 2, 4, 3, 8});
  hif::mt::get_nthreads(nt);
  // sums of one row (column) are formed in the widest type, scattered ones in the type of the result
  if (tran != CS::ROW_MAJOR) eps = std::min(EPS, std::min(EpsOf<Wx>::v(), EpsOf<Wy>::v()));
  size_t ni = tran ? m.m : m.n, no = tran ? m.n : m.m;
  hif::Array<Wx> x(ni);
  for (auto &v : x) v = Rnd<Wx>::f(g);
  hif::Array<Wx> x0(x, true);
  hif::Array<Wy> y(no);
  for (auto &v : y) v = Wy(77);
  int how = s.below(3);
  ctx.desc << (tran ? " transposed" : " plain") << " how=" << how << " Nrhs=" << N << " threads=" << nt << " ";
  if (how == 0) A.multiply(x, y, tran);
  else if (tran) { if (how == 1) A.multiply_t(x, y); else A.multiply_t_low(x.data(), y.data()); }
  else if (how == 1) hif::mt::multiply_nt(A, x, y);
  else hif::mt::multiply_nt_low(A, x.data(), y.data());
  hif::Array<std::array<Wx, N>> xs(ni);
  hif::Array<std::array<Wy, N>> ys(no);
  for (auto &v : xs) for (auto &w : v) w = Rnd<Wx>::f(g);
  for (auto &v : ys) v.fill(Wy(78));
  if (how == 0 || !ni || !no) A.multiply_mrhs(xs, ys, tran);
  else if (tran) { if (how == 1) A.multiply_mrhs_t(xs, ys); else A.template multiply_mrhs_t_low<N>(xs[0].data(), ys[0].data()); }
  else if (how == 1) hif::mt::multiply_mrhs_nt(A, xs, ys);
  else hif::mt::multiply_mrhs_nt_low<N>(A, xs[0].data(), ys[0].data());
  for (size_t j = 0; j < ni; ++j) CHECK(biteq(x[j], x0[j]), "a product changed its input");
  for (size_t i = 0; i < no; ++i) {
    X  r = 0;
    LR sc = 0;
    auto &e = tran ? t.r[i] : m.r[i];
    for (auto &p : e) { X a = tran ? conj_(up(p.second)) : up(p.second); r += a * up(x[p.first]); sc += std::abs(a) * std::abs(up(x[p.first])); }
    cmp(r, sc, e.size(), y[i], eps, tran ? "transposed product" : "product", i);
    for (size_t k = 0; k < N; ++k) {
        r = 0, sc = 0;
        for (auto &p : e) { X a = tran ? conj_(up(p.second)) : up(p.second); r += a * up(xs[p.first][k]); sc += std::abs(a) * std::abs(up(xs[p.first][k])); }
        cmp(r, sc, e.size(), ys[i][k], eps, tran ? "transposed product of several vectors" : "product of several vectors", i);
    }
  }
  // size mismatches
  if (s.chance(1, 6)) {
    hif::Array<Wx> xb(ni + 1);
    for (auto &v : xb) v = Wx(1);
    bool threw = false;
    try { A.multiply(xb, y, tran); } catch (const std::exception &) { threw = true; }
    CHECK(threw, "a vector of the wrong length was accepted");
    hif::Array<Wy> yb(no + 1);
    threw = false;
    try { A.multiply(x, yb, tran); } catch (const std::exception &) { threw = true; }
    CHECK(threw, "a result of the wrong length was accepted");
  }
  Range<CS, Wx, Wy>::f(s, g, m, A, eps);
}
// op: 0 lower, 1 lower transposed, 2 upper, 3 upper transposed
inline void tri_ref(const Sp &m, int op, const std::vector<X> &b, std::vector<X> &x, std::vector<LR> &err, LR eps) {
  size_t n = m.m;
  Mat    D = m.dense();
  if (op & 1) D = D.H();
  bool fwd = op == 0 || op == 3;
  x.assign(n, 0);
  err.assign(n, 0);
  for (size_t k = 0; k < n; ++k) {
    size_t i = fwd ? k : n - 1 - k;
    X      t = b[i];
    LR     sc = std::abs(b[i]), pe = 0;
    size_t c = 0;
    for (size_t q = 0; q < n; ++q) {
      if (D(i, q) == X(0)) continue;
      ++c;
      t -= D(i, q) * x[q];
      sc += std::abs(D(i, q)) * std::abs(x[q]);
      pe += std::abs(D(i, q)) * err[q];
    }
    x[i]   = t;
    err[i] = (4 * c + 8) * eps * (sc + pe) + pe;
  }
}
template <class CS, class W, size_t N>
void solves(Src &s, Ctx &ctx, const Sp &m, const CS &A, bool upper, Lcg &g) {
  size_t n   = m.m;
  LR     eps = EpsOf<W>::v();
  bool   tran = s.chance(1, 2);
  // products of two complex numbers of different precision have the type of the left one, here the matrix entry
  if (IS_CPLX && tran == CS::ROW_MAJOR) eps = std::max(EPS, eps);
  int    op = (upper ? 2 : 0) + tran;
  ctx.desc << " solve op=" << op << " Nrhs=" << N << " ";
  hif::Array<W> y(n);
  hif::Array<std::array<W, N>> ys(n);
  std::vector<X>              b(n), x;
  std::vector<std::vector<X>> bs(N, b);
  std::vector<LR>             err;
  for (size_t i = 0; i < n; ++i) { b[i] = up(y[i] = Rnd<W>::f(g)); for (size_t k = 0; k < N; ++k) bs[k][i] = up(ys[i][k] = Rnd<W>::f(g)); }
  switch (op) {
    case 0: A.solve_as_strict_lower(y); A.solve_as_strict_lower_mrhs(ys); break;
    case 1: A.solve_as_strict_lower_tran(y); A.solve_as_strict_lower_mrhs_tran(ys); break;
    case 2: A.solve_as_strict_upper(y); A.solve_as_strict_upper_mrhs(ys); break;
    default: A.solve_as_strict_upper_tran(y); A.solve_as_strict_upper_mrhs_tran(ys);
  }
  bool ill = false;
  for (size_t k = 0; k <= N; ++k) {
    tri_ref(m, op, k < N ? bs[k] : b, x, err, eps);
    for (size_t i = 0; i < n; ++i) {
      const W &got = k < N ? ys[i][k] : y[i];
      if (err[i] > 1e-2L * std::abs(x[i])) ill = true;
      LR d = std::abs(up(got) - x[i]);
      CHECK(d <= err[i] + 1e-300L, (k < N ? "triangular solve of several vectors" : "triangular solve") << ": component " << i << " is " << got << ", dense arithmetic gives " << x[i] << " (bound " << err[i] << ")");
    }
  }
  ctx.label(ill ? "loose" : "tight");
}
template <class CS>
void one(Src &s, Ctx &ctx, const Sp &m, const CS &A, int tri, Lcg &g) {
  typedef typename std::conditional<IS_CPLX, std::complex<double>, double>::type Hi;
  typedef typename std::conditional<IS_CPLX, std::complex<float>, float>::type  Lo;
  int mix = s.below(3), nr = s.below(3);
  ctx.desc << "mix=" << mix;
  if (tri) {
    if (mix == 0) nr == 0 ? solves<CS, V, 1>(s, ctx, m, A, tri == 2, g) : nr == 1 ? solves<CS, V, 2>(s, ctx, m, A, tri == 2, g) : solves<CS, V, 5>(s, ctx, m, A, tri == 2, g);
    else if (mix == 1) solves<CS, Hi, 3>(s, ctx, m, A, tri == 2, g);
    else solves<CS, Lo, 2>(s, ctx, m, A, tri == 2, g);
  } else {
    if (mix == 0) nr == 0 ? products<CS, V, V, 1>(s, ctx, m, A, g) : nr == 1 ? products<CS, V, V, 4>(s, ctx, m, A, g) : products<CS, V, V, 3>(s, ctx, m, A, g);
    else if (mix == 1) products<CS, Hi, Lo, 2>(s, ctx, m, A, g);
    else products<CS, Lo, Hi, 3>(s, ctx, m, A, g);
  }
}
template <class I, class P>
void kernels(Src &s, Ctx &ctx, bool big) {
  int    tri = big ? 0 : s.below(3);
  size_t m = big ? (s.chance(1, 2) ? 1000 + s.below(200) : 20 + s.below(100)) : s.below(20), n = s.chance(1, 2) ? m : big ? 1 + s.below(300) : s.below(20);
  if (tri) { m = n = 1 + s.below(20); }
  double dens = big ? (m >= 1000 ? s.pick({0.01, 0.03}) : s.pick({0.5, 1.0})) : s.pick({0.3, 0.1, 0.6, 1.0, 0.0});
  double mag  = tri ? s.pick({0.5, 1.0, 2.0, 0.1}) : s.pick({1.0, 1e-3, 1e4});
  Lcg    g{s.below(1u << 30)};
  Sp     A = gen_sp(g, m, n, tri, dens, mag);
  bool   row = s.chance(1, 2);
  ctx.desc << (row ? "crs " : "ccs ") << sizeof(I) << "x" << sizeof(P) << " tri=" << tri << " ";
  A.describe(ctx.desc);
  ctx.nontrivial(A.nnz() >= 2);
  ctx.label(tri ? "solve" : "product");
  if (row) one(s, ctx, A, A.template crs<I, P>(), tri, g);
  else one(s, ctx, A, A.template ccs<I, P>(), tri, g);
}
// norms and inner products
inline void norms(Src &s, Ctx &ctx) {
  size_t n = s.below(40);
  Lcg    g{s.below(1u << 30)};
  int    wide = s.pick({0, 30, IS_SINGLE ? 100 : 900});
  auto   val = [&]() { int e = wide ? (int)(g.unit() * 2 * wide) - wide : 0; X v = up(Rnd<V>::f(g)); return Down<V>::f(v * std::ldexp((LR)1, e)); };
  hif::Array<V> x(n), y(n);
  for (auto &v : x) v = g.unit() < 0.1 ? V(0) : val();
  for (auto &v : y) v = Rnd<V>::f(g);
  ctx.desc << "n=" << n << " exponents up to " << wide;
  LR q = 0;
  for (auto &v : x) q += std::norm(up(v));
  LR nr = std::sqrt(q);
  R  got = hif::norm2(x);
  CHECK(std::abs(got - nr) <= (4 * n + 16) * EPS * nr + std::numeric_limits<R>::denorm_min() * 4, "norm of a vector is " << got << " instead of " << nr);
  if (wide < 60) {
    X  t = 0;
    LR sc = 0;
    for (size_t i = 0; i < n; ++i) { t += conj_(up(x[i])) * up(y[i]); sc += std::abs(up(x[i])) * std::abs(up(y[i])); }
    cmp(t, sc, n, hif::inner(x, y), EPS, "inner product", 0);
    R sq = hif::norm2_sq(x);
    CHECK(std::abs(sq - q) <= (4 * n + 16) * EPS * q, "squared norm is " << sq << " instead of " << q);
    if (nr > 0) {
      hif::Array<V> w(n);
      hif::normalize2(x, w);
      for (size_t i = 0; i < n; ++i) cmp(up(x[i]) / nr, std::abs(up(x[i])) / nr, n, w[i], EPS, "normalized vector", i);
      hif::Array<V> z(x, true);
      hif::normalize(z);
      for (size_t i = 0; i < n; ++i) CHECK(biteq(z[i], w[i]), "the two forms of normalization differ");
    }
  }
  ctx.nontrivial(n >= 2);
}
}  // namespace

PBT_PROP(kernels, 40000, 2000000) {
  switch (src.below(3)) {
    case 0: return kernels<int, std::ptrdiff_t>(src, ctx, false);
    case 1: return kernels<int, int>(src, ctx, false);
    default: return kernels<long, long>(src, ctx, false);
  }
}
PBT_PROP(kernels_big, 300, 20000) { kernels<int, std::ptrdiff_t>(src, ctx, true); }
PBT_PROP(norms, 10000, 300000) { norms(src, ctx); }
