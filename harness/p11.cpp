// P11: dense last-level kernels solve, multiply and reveal rank.
#include "ref.hpp"
namespace {
typedef hif::DenseMatrix<V> DM;
inline Mat orth(Src &s, size_t n) {  // a random unitary matrix
  Mat Q(n, n);
  int style = s.below(4);
  for (size_t j = 0; j < n; ++j) {
    for (int tries = 0;; ++tries) {
      Vec v(n);
      for (size_t i = 0; i < n; ++i) v[i] = style == 0 ? X(i == j ? 1 : 0) : style == 1 ? (s.chance(1, 3) ? up(gen_val(s)) : X(0)) : up(gen_val(s));
      if (tries) v[(j + tries) % n] += X(7);
      LR before = 0;
      for (auto &x : v) before += std::norm(x);
      for (int rep = 0; rep < 3; ++rep)
        for (size_t k = 0; k < j; ++k) {
          X d(0);
          for (size_t i = 0; i < n; ++i) d += conj_(Q(i, k)) * v[i];
          for (size_t i = 0; i < n; ++i) v[i] -= Q(i, k) * d;
        }
      LR s2 = 0;
      for (auto &x : v) s2 += std::norm(x);
      if (s2 <= 1e-6L * before || s2 < 1e-30L) {
        if (tries > 3 * (int)n) throw pbt::Discard();
        continue;
      }
      for (size_t i = 0; i < n; ++i) Q(i, j) = v[i] / X(std::sqrt(s2));
      break;
    }
  }
  return Q;
}
template <class T>
inline hif::DenseMatrix<T> to_dm(const Mat &A) {
  hif::DenseMatrix<T> D(A.m, A.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j) D(i, j) = Down<T>::f(A(i, j));
  return D;
}
inline Mat rounded(const Mat &A) {
  Mat B = A;
  for (auto &x : B.a) x = up(Down<V>::f(x));
  return B;
}
// hand the matrix over in one of the documented ways
template <class S>
inline void give(Src &s, S &qr, const Mat &A) {
  switch (s.below(4)) {
    case 0: {
      auto D = to_dm<V>(A);
      qr.set_matrix(std::move(D));
      break;
    }
    case 1: {
      Sp a(A.m, A.n);
      for (size_t i = 0; i < A.m; ++i)
        for (size_t j = 0; j < A.n; ++j)
          if (A(i, j) != X(0)) a.set(i, j, Down<V>::f(A(i, j)));
      if (s.chance(1, 2)) qr.set_matrix(a.crs<>());
      else qr.set_matrix(a.ccs<>());
      break;
    }
    case 2: {
#if VT < 2
      qr.set_matrix(to_dm<double>(A));
#else
      qr.set_matrix(to_dm<std::complex<double>>(A));
#endif
      break;
    }
    default: {
      qr.mat()        = to_dm<V>(A);
      qr.mat_backup() = to_dm<V>(A);
    }
  }
}
// the dense matrix of an in-place operation
template <class F>
inline Mat action(size_t n, const F &f) {
  Mat C(n, n);
  for (size_t j = 0; j < n; ++j) {
    hif::Array<V> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = V(i == j);
    f(x);
    for (size_t i = 0; i < n; ++i) C(i, j) = up(x[i]);
  }
  return C;
}
inline bool close(const Mat &A, const Mat &B, LR tol) {
  for (size_t i = 0; i < A.a.size(); ++i)
    if (!(std::abs(A.a[i] - B.a[i]) <= tol)) return false;
  return true;
}
inline LR dist(const Mat &A, const Mat &B) {
  LR d = 0;
  for (size_t i = 0; i < A.a.size(); ++i) d = std::max(d, std::isnan((LR)std::abs(A.a[i] - B.a[i])) ? 1e300L : (LR)std::abs(A.a[i] - B.a[i]));
  return d;
}
struct Spec {
  Mat             A;
  std::vector<LR> s;  // singular values or eigenvalues
  size_t          n = 0;
  size_t          k = 0;  // number of large ones
};
// a former use of the object, with a matrix of another size
template <class S, class... TR>
inline void warm(Src &src, Ctx &ctx, S &qr, const hif::Params &opts, TR... tr) {
  if (!src.chance(1, 4)) return;
  size_t k = 1 + src.below(8), nr = src.below(3);
  Mat    A(k, k);
  for (size_t i = 0; i < k; ++i) A(i, i) = X(2 + (LR)i);
  auto D = to_dm<V>(A);
  qr.set_matrix(std::move(D));
  qr.factorize(opts);
  auto several = [&](auto B) {
    for (size_t i = 0; i < k; ++i) B[i].fill(V(1));
    qr.solve_mrhs(B, 0, tr...);
  };
  if (nr == 0) several(hif::Array<std::array<V, 1>>(k));
  else if (nr == 1) several(hif::Array<std::array<V, 3>>(k));
  else several(hif::Array<std::array<V, 8>>(k));
  hif::Array<V> x(k);
  for (auto &v : x) v = V(1);
  qr.solve(x, 0, tr...);
  ctx.label("used before");
  ctx.desc << " used before with size " << k << " and " << (nr ? nr == 1 ? 3 : 8 : 1) << " vectors;";
}
// singular values with one clear gap
inline Spec gen_spec(Src &src, LR tiny) {
  Spec   p;
  size_t n = 1 + src.below(src.chance(1, 10) ? 30 : 9);
  p.n      = n;
  p.k      = src.chance(1, 2) ? n : src.below(n + 1);
  p.s.resize(n);
  LR scale = src.pick<LR>({1.0L, 1e3L, 1e-3L, 1.0L, IS_SINGLE ? 1e15L : 1e140L, IS_SINGLE ? 1e-15L : 1e-140L});
  for (size_t i = 0; i < n; ++i) p.s[i] = scale * (i < p.k ? (LR)src.pick({1.0, 0.5, 0.3, 2.0, 0.1}) : src.chance(1, 2) ? 0 : tiny * (LR)src.pick({1.0, 0.3}));
  std::sort(p.s.rbegin(), p.s.rend());
  if (!p.k) for (auto &x : p.s) x = 0;
  Mat U = orth(src, n), W = orth(src, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) U(i, j) *= X(p.s[j]);
  p.A = U * W.H();
  return p;
}
inline void describe(Ctx &ctx, const Mat &A) {
  ctx.desc << " A=" << A.m << "x" << A.n << "{";
  for (size_t i = 0; i < A.m && i < 6; ++i) {
    for (size_t j = 0; j < A.n && j < 6; ++j) ctx.desc << Down<V>::f(A(i, j)) << " ";
    ctx.desc << ";";
  }
  ctx.desc << "}";
}
template <class T, size_t N, class S, class... TR>
inline void mrhs_same(Src &src, const S &qr, size_t n, size_t r, LR tol, TR... tr) {
  typedef std::array<T, N> Row;
  hif::Array<Row>          B(n);
  Mat                      b(n, N);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < N; ++k) b(i, k) = up(B[i][k] = Down<T>::f(up(gen_val(src))));
  bool mult = src.chance(1, 2);
  auto C    = B;
  hif::Array<Row> W(n);
  for (size_t i = 0; i < n; ++i) W[i] = B[i];
  mult ? qr.multiply_mrhs(W, r, tr...) : qr.solve_mrhs(W, r, tr...);
  for (size_t k = 0; k < N; ++k) {
    hif::Array<T> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = Down<T>::f(b(i, k));
    mult ? qr.multiply(x, r, tr...) : qr.solve(x, r, tr...);
    LR mx = vmax(lift(x));
    for (size_t i = 0; i < n; ++i) CHECK(std::abs(up(x[i]) - up(W[i][k])) <= tol * (mx + std::numeric_limits<R>::min()), (mult ? "multiply" : "solve") << " of column " << k << "/" << N << " gives " << W[i][k] << " but alone " << x[i]);
  }
}
}  // namespace
namespace {
// incremental condition estimation: a unit vector x with |x^H R| equal to the
// estimate is extended by the best combination with the next unit vector
struct Ice {
  std::vector<X> x;
  LR             est = 0;
  void           step(const Mat &R, size_t k, bool largest) {
    if (!k) { x.assign(1, X(1)), est = std::abs(R(0, 0)); return; }
    X al = 0, ga = R(k, k);
    for (size_t i = 0; i < k; ++i) al += conj_(x[i]) * R(i, k);
    LR a2 = std::norm(al), g2 = std::norm(ga), e2 = est * est, tr = e2 + a2 + g2, det = e2 * g2;
    LR lmax = (tr + std::sqrt(std::max((LR)0, tr * tr - 4 * det))) / 2, lam = largest ? lmax : lmax > 0 ? det / lmax : 0;
    X  s1 = -al * conj_(ga), c1 = e2 + a2 - lam, s2 = lam - g2, c2 = ga * conj_(al);
    LR n1 = std::sqrt(std::norm(s1) + std::norm(c1)), n2 = std::sqrt(std::norm(s2) + std::norm(c2));
    X  s = n1 >= n2 ? s1 : s2, c = n1 >= n2 ? c1 : c2;
    LR nn = std::max(n1, n2);
    if (nn > 0) s /= nn, c /= nn;
    else s = 1, c = 0;
    for (auto &v : x) v *= s;
    x.push_back(c);
    est = std::sqrt(lam);
  }
};
}  // namespace
PBT_PROP(qrcp_estimate, 3000, 60000) {
  // matrices without a gap: the rank is where the condition estimate of the
  // leading part of R leaves the threshold
  size_t n   = 2 + src.below(src.chance(1, 4) ? 40 : 14);
  double thr = src.pick<double>({3, 10, 30, 100, 300, 1e3, IS_SINGLE ? 2e3 : 1e5, IS_SINGLE ? 50 : 1e7});
  Mat    A(n, n);
  int    kind = (int)src.below(4);
  LR     c = 0.05L + 0.9L * src.unit(), sn = std::sqrt(1 - c * c), pw = 1;
  for (size_t i = 0; i < n; ++i) {
    if (kind == 0) pw = i ? pw * sn * (1 - 1e-3L * (LR)i / (LR)n) : 1;  // Kahan
    if (kind == 1) pw = std::pow(10.0L, -6.0L * (LR)i / (LR)n * c);
    for (size_t j = 0; j < n; ++j) {
      X r = up(gen_val(src)) * X(0.2L);
      if (kind == 0) A(i, j) = j < i ? X(0) : pw * (j == i ? X(1) : X(-c) * (X(1) + X(0.01L) * r));
      else if (kind == 1) A(i, j) = j < i ? X(0) : pw * (j == i ? X(1) : r);
      else if (kind == 2) A(i, j) = r;
      else A(i, j) = X(1 / (1 + std::abs((LR)i - (LR)j) * c)) + X(1e-3L) * r;
    }
  }
  if (src.chance(1, 2)) A = orth(src, n) * A;
  A = rounded(A);
  hif::Params opts = hif::DEFAULT_PARAMS;
  opts.verbose = 0, opts.rrqr_cond = thr;
  ctx.desc << "QRCP estimate kind=" << kind << " c=" << (double)c << " thr=" << thr;
  describe(ctx, A);
  hif::QRCP<V> qr;
  give(src, qr, A);
  qr.factorize(opts);
  size_t rank = qr.rank();
  CHECK(rank <= n, "rank " << rank << " of " << n);
  if (A.maxabs() == 0) { CHECK(!rank, "rank of zero"); return; }
  Mat R(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i; j < n; ++j) R(i, j) = up(qr.mat()(i, j));
  const LR slack = IS_SINGLE ? 0.05L : 0.01L;
  Ice      lo, hi;
  for (size_t k = 0; k < n && k <= rank; ++k) {
    lo.step(R, k, false), hi.step(R, k, true);
    if (k < rank) CHECK(hi.est <= thr * lo.est * (1 + slack), "rank " << rank << " of " << n << " although the estimated condition number of the leading " << k + 1 << " columns is " << (double)(hi.est / lo.est) << ", threshold " << thr);
    else CHECK(hi.est > thr * lo.est * (1 - slack), "rank " << rank << " of " << n << " although the estimated condition number of the leading " << k + 1 << " columns is only " << (double)(hi.est / lo.est) << ", threshold " << thr);
  }
  // an estimate is never above the real condition number
  if (rank < n && n <= 20) {
    Mat B(rank + 1, rank + 1);
    for (size_t i = 0; i <= rank; ++i)
      for (size_t j = 0; j <= rank; ++j) B(i, j) = R(i, j);
    auto sv = svals(B);
    CHECK(sv[0] * (1 + slack) >= thr * sv[rank], "rank " << rank << " of " << n << " although the leading " << rank + 1 << " columns have condition number " << (double)(sv[0] / sv[rank]));
  }
  if (rank && rank < n) ctx.nontrivial();
  ctx.label(rank == n ? "full" : rank < n / 2 ? "less than half" : "deficient");
}
PBT_PROP(qrcp, 4000, 80000) {
  // tiny singular values sit far beyond the threshold, large ones far below
  double cond[4] = {0.0, IS_SINGLE ? 3e3 : 1e6, IS_SINGLE ? 500. : 1e4, IS_SINGLE ? 2e4 : 1e9};
  double rr      = cond[src.below(4)];
  double thr     = rr > 0 ? rr : std::pow((double)EPS, -2. / 3);
  Spec   p       = gen_spec(src, (LR)(1 / thr) * 1e-3L);
  size_t n       = p.n;
  Mat    A       = rounded(p.A);
  hif::Params opts = hif::DEFAULT_PARAMS;
  opts.verbose     = 0;
  opts.rrqr_cond   = rr;
  ctx.desc << "QRCP rrqr_cond=" << rr << " k=" << p.k;
  describe(ctx, A);
  hif::QRCP<V> qr;
  bool         threw = false;
  {
    hif::Array<V> x(n);
    for (auto &v : x) v = V(1);
    try { qr.solve(x); } catch (const std::exception &) { threw = true; }
    CHECK(threw, "solving before factorizing is not reported");
  }
  warm(src, ctx, qr, opts, src.chance(1, 2));
  give(src, qr, A);
  qr.factorize(opts);
  if (src.chance(1, 4)) {  // again from the backup, after another threshold
    opts.rrqr_cond = 10;
    qr.refactorize(opts);
    opts.rrqr_cond = rr;
    qr.refactorize(opts);
    ctx.label("refactorized");
  }
  size_t rank = qr.rank();
  CHECK(rank <= n, "rank " << rank << " of a matrix of size " << n);
  // spread of the large singular values is at most 20; single precision noise must stay below the threshold too
  auto sv  = svals(A);
  auto clear = [&](size_t k) {  // k is the only possible answer
    LR sl = 30 * (LR)n;
    if (k && !(sv[0] * sl < thr * sv[k - 1])) return false;
    if (k < n && !(sv[0] > thr * (sv[k] + EPS * 0) * (LR)(3) )) return false;
    return k == n || k == 0 || sv[0] > thr * (sv[k] + 2 * (LR)n * EPS * sv[0]) * 3;
  };
  bool judged = sv[0] == 0 || clear(p.k);
  if (judged) {
    CHECK(rank == (sv[0] == 0 ? 0 : p.k), "numerical rank " << rank << " but " << p.k << " of " << n << " singular values lie above the threshold 1/" << thr << " (largest " << (double)sv[0] << ", next " << (double)(p.k < n ? sv[p.k] : 0) << ")");
    CHECK(qr.full_rank() == (rank == n), "full_rank()");
  } else ctx.label("unclear rank");
  if (sv[0] == 0) {
    for (int tr = 0; tr < 2; ++tr) {
      Mat S = action(n, [&](hif::Array<V> &x) { qr.solve(x, 0, tr != 0); });
      CHECK(S.maxabs() == 0, "the solve with a zero matrix is not zero");
    }
    ctx.label("zero");
    return;
  }
  // requested ranks up to the numerical one
  size_t r  = src.chance(1, 2) ? 0 : 1 + src.below(rank);
  if (!rank) return;
  size_t rk = r ? r : rank;
  Mat    Sv = action(n, [&](hif::Array<V> &x) { qr.solve(x, r); }), St = action(n, [&](hif::Array<V> &x) { qr.solve(x, r, true); });
  Mat    Mv = action(n, [&](hif::Array<V> &x) { qr.multiply(x, r); }), Mt = action(n, [&](hif::Array<V> &x) { qr.multiply(x, r, true); });
  // which columns take part
  std::vector<size_t> sel;
  for (size_t j = 0; j < n; ++j) {
    LR c = 0, w = 0;
    for (size_t i = 0; i < n; ++i) c = std::max(c, (LR)std::abs(Mv(i, j))), w = std::max(w, (LR)std::abs(Sv(j, i)));
    if (w > 0) sel.push_back(j);
    CHECK((w > 0) == (c > 0), "column " << j << " takes part in only one of solve and multiply");
  }
  CHECK(sel.size() == rk, "rank " << rk << " but " << sel.size() << " columns take part");
  Mat C(n, rk);
  for (size_t j = 0; j < rk; ++j)
    for (size_t i = 0; i < n; ++i) C(i, j) = A(i, sel[j]);
  auto cs = svals(C);
  LR   kc = cs[0] / cs[rk - 1], tolm = (IS_SINGLE ? 30 : 100) * (LR)n * EPS;
  // the pivoting really reveals rank
  if (rk <= 12) CHECK(cs[rk - 1] * std::sqrt((LR)(n * rk)) * std::pow(2.0L, (LR)rk) * 1.01L + 10 * (LR)n * EPS * sv[0] >= sv[rk - 1], "the selected columns have smallest singular value " << (double)cs[rk - 1] << " while the matrix has " << (double)sv[rk - 1]);
  Mat Me(n, n);
  for (size_t j = 0; j < rk; ++j)
    for (size_t i = 0; i < n; ++i) Me(i, sel[j]) = C(i, j);
  // columns beyond the block: multiplication reproduces the selected ones exactly as QR does
  CHECK(dist(Mv, Me) <= tolm * cs[0], "multiplication at rank " << rk << " differs from the selected columns by " << (double)dist(Mv, Me));
  CHECK(dist(Mt, Me.H()) <= tolm * cs[0], "transposed multiplication at rank " << rk << " off by " << (double)dist(Mt, Me.H()));
  LR tols = tolm * kc * kc / cs[0];
  if (tolm * kc * kc < 0.05) {
    Mat G = C.H() * C;
    LU  lu(G);
    if (!lu.ok) { ctx.label("illcond"); return; }
    Mat P = lu.inverse() * C.H(), Se(n, n);
    for (size_t j = 0; j < rk; ++j)
      for (size_t i = 0; i < n; ++i) Se(sel[j], i) = P(j, i);
    CHECK(dist(Sv, Se) <= tols, "solve at rank " << rk << " differs from the pseudo-inverse of the selected columns by " << (double)dist(Sv, Se) << ", allowed " << (double)tols);
    CHECK(dist(St, Se.H()) <= tols, "transposed solve at rank " << rk << " off by " << (double)dist(St, Se.H()) << ", allowed " << (double)tols);
    bool tr = src.chance(1, 2);
    switch (src.below(4)) {
      case 0: mrhs_same<V, 1>(src, qr, n, r, tolm * kc, tr); break;
      case 1: mrhs_same<V, 2>(src, qr, n, r, tolm * kc, tr); break;
      case 2: mrhs_same<V, 5>(src, qr, n, r, tolm * kc, tr); break;
#if VT == 1
      default: mrhs_same<double, 3>(src, qr, n, r, tolm * kc, tr);
#elif VT == 3
      default: mrhs_same<std::complex<double>, 3>(src, qr, n, r, tolm * kc, tr);
#else
      default: mrhs_same<V, 3>(src, qr, n, r, tolm * kc, tr);
#endif
    }
    ctx.label("judged");
    ctx.nontrivial(n >= 2);
  } else ctx.label("illcond");
  // wrong sizes are reported
  for (int k = 0; k < 2; ++k) {
    hif::Array<V> x(n + 1 + k);
    for (auto &v : x) v = V(1);
    threw = false;
    try { k ? qr.multiply(x) : qr.solve(x); } catch (const std::exception &) { threw = true; }
    CHECK(threw, "a vector of the wrong size is accepted");
  }
}
PBT_PROP(syeig, 4000, 80000) {
  LR     eps23 = std::pow(EPS, 2.0L / 3);
  size_t n     = 1 + src.below(src.chance(1, 10) ? 25 : 9);
  std::vector<LR> w(n);
  LR scale = src.pick<LR>({1.0L, 100.L, 0.01L, IS_SINGLE ? 1e21L : 1e160L, IS_SINGLE ? 1e-21L : 1e-160L});
  for (auto &x : w) {
    x = scale * (LR)src.pick({1.0, 2.0, 0.5, 3.0, 0.25, 5.0}) * (1 + src.unit() * 0.2);
    if (src.chance(1, 2)) x = -x;
    if (src.chance(1, 5)) x = src.chance(1, 2) ? 0 : x * eps23 * 1e-3L;
  }
  int spd = (int)src.below(3) - 1;
  if (spd && src.chance(1, 2))
    for (auto &x : w) x = spd * std::abs(x);
  Mat Q = orth(src, n), D(n, n);
  for (size_t i = 0; i < n; ++i) D(i, i) = X(w[i]);
  Mat A = rounded(Q * D * Q.H());
  for (size_t i = 0; i < n; ++i) {
    A(i, i) = X(std::real(A(i, i)));
    for (size_t j = 0; j < i; ++j) A(j, i) = conj_(A(i, j));
  }
  hif::Params opts = hif::DEFAULT_PARAMS;
  opts.verbose     = 0;
  opts.spd         = spd;
  ctx.desc << "SYEIG spd=" << spd << " w=";
  for (auto x : w) ctx.desc << (double)x << ",";
  describe(ctx, A);
  hif::SYEIG<V> eg;
  {
    bool threw = false;
    hif::Array<V> x(n);
    for (auto &v : x) v = V(1);
    try { eg.solve(x); } catch (const std::exception &) { threw = true; }
    CHECK(threw, "solving before factorizing is not reported");
  }
  warm(src, ctx, eg, opts);
  give(src, eg, A);
  eg.factorize(opts);
  if (src.chance(1, 4)) {
    hif::Params o2 = opts;
    o2.spd         = (int)src.below(3) - 1;
    eg.refactorize(o2);
    eg.refactorize(opts);
    ctx.label("refactorized");
  }
  LR wm = 0;
  for (auto x : w) wm = std::max(wm, (LR)std::abs(x));
  if (wm == 0) {
    CHECK(eg.rank() == 0, "rank " << eg.rank() << " of a zero matrix");
    ctx.label("zero");
    return;
  }
  // order of truncation and number kept
  std::vector<size_t> ord(n);
  std::iota(ord.begin(), ord.end(), 0);
  std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return spd > 0 ? w[a] > w[b] : spd < 0 ? w[a] < w[b] : std::abs(w[a]) > std::abs(w[b]); });
  size_t keep = 0;
  bool   clear = true;
  LR     noise = 20 * (LR)n * EPS * wm;
  for (auto x : w) {
    LR y = spd > 0 ? x : spd < 0 ? -x : std::abs(x);
    if (y > eps23 * wm) ++keep;
    LR d = std::abs(y) > eps23 * wm * 0.3L && std::abs(y) < eps23 * wm * 3;
    if (d || noise > (IS_SINGLE ? 2 : 0.3L) * eps23 * wm) clear = false;
  }
  
  if (!clear) { ctx.label("unclear"); return; }
  CHECK(eg.rank() == keep, "rank " << eg.rank() << " but " << keep << " eigenvalues of " << n << " are to be kept");
  CHECK(eg.full_rank() == (keep == n), "full_rank()");
  size_t r  = src.chance(1, 2) || !keep ? 0 : 1 + src.below(keep);
  size_t rk = r ? r : keep;
  // ambiguous when the next eigenvalue is as large
  if (rk && rk < keep) {
    LR a = spd ? w[ord[rk - 1]] : std::abs(w[ord[rk - 1]]), b = spd ? w[ord[rk]] : std::abs(w[ord[rk]]);
    LR gap = std::abs(a - b) / wm;
    if (gap < (IS_SINGLE ? 0.02L : 1e-6L)) { ctx.label("tie"); return; }
  }
  LR gapmin = 1;
  if (rk < n && rk) {
    for (size_t i = 0; i < rk; ++i)
      for (size_t j = rk; j < n; ++j) gapmin = std::min(gapmin, (LR)std::abs(w[ord[i]] - w[ord[j]]) / wm);
  }
  Mat Se(n, n), Me(n, n);
  LR  wmin = 0;
  for (size_t k = 0; k < rk; ++k) {
    size_t c = ord[k];
    wmin     = k ? std::min(wmin, (LR)std::abs(w[c])) : std::abs(w[c]);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        X t = Q(i, c) * conj_(Q(j, c));
        Se(i, j) += t / X(w[c]), Me(i, j) += t * X(w[c]);
      }
  }
  Mat S = action(n, [&](hif::Array<V> &x) { eg.solve(x, r); }), M = action(n, [&](hif::Array<V> &x) { eg.multiply(x, r); });
  LR  e  = (IS_SINGLE ? 30 : 100) * (LR)n * EPS / gapmin;
  LR  ts = rk ? e * wm / (wmin * wmin) : 0, tm = e * wm;
  if (rk && e * wm / wmin > 0.05L) { ctx.label("illcond"); return; }
  CHECK(dist(S, Se) <= ts, "solve at rank " << rk << " differs from the truncated inverse by " << (double)dist(S, Se) << ", allowed " << (double)ts);
  CHECK(dist(M, Me) <= tm, "multiplication at rank " << rk << " differs from the truncated product by " << (double)dist(M, Me) << ", allowed " << (double)tm);
  if (rk) {
    switch (src.below(3)) {
      case 0: mrhs_same<V, 1>(src, eg, n, r, e * wm / wmin); break;
      case 1: mrhs_same<V, 4>(src, eg, n, r, e * wm / wmin); break;
#if VT == 1
      default: mrhs_same<double, 3>(src, eg, n, r, e * wm / wmin);
#elif VT == 3
      default: mrhs_same<std::complex<double>, 3>(src, eg, n, r, e * wm / wmin);
#else
      default: mrhs_same<V, 3>(src, eg, n, r, e * wm / wmin);
#endif
    }
  }
  ctx.label("kept=" + std::string(keep == n ? "all" : keep ? "some" : "none"));
  ctx.nontrivial(n >= 2 && rk >= 1);
}
PBT_PROP(lu, 2500, 50000) {
  Spec p  = gen_spec(src, 0);
  size_t n = p.n;
  bool   sing = src.chance(1, 4);
  if (!sing && p.k < n) throw pbt::Discard();
  Mat A(n, n);
  if (sing) {  // exactly singular small integers
    for (auto &x : A.a) x = X((LR)((int)src.below(3) - 1));
    size_t z = src.below(n);
    for (size_t i = 0; i < n; ++i) A(i, z) = X(0);
  } else A = rounded(p.A);
  hif::Params opts = hif::DEFAULT_PARAMS;
  opts.verbose     = 0;
  ctx.desc << "LUP";
  describe(ctx, A);
  hif::LUP<V> lu;
  warm(src, ctx, lu, opts, src.chance(1, 2));
  give(src, lu, A);
  lu.factorize(opts);
  if (src.chance(1, 4)) lu.refactorize(opts);
  if (sing) {
    CHECK(lu.rank() < n && !lu.full_rank(), "a singular matrix has LU rank " << lu.rank() << " of " << n);
    ctx.label("singular");
    return;
  }
  CHECK(lu.rank() == n && lu.full_rank(), "LU rank " << lu.rank() << " of a regular matrix");
  LU ref(A);
  if (!ref.ok) throw pbt::Discard();
  Mat Ai = ref.inverse();
  LR  cond = A.normInf() * Ai.normInf(), tol = (IS_SINGLE ? 30 : 100) * (LR)n * EPS * cond;
  if (tol > 0.05L) { ctx.label("illcond"); return; }
  for (int tr = 0; tr < 2; ++tr) {
    Mat S = action(n, [&](hif::Array<V> &x) { lu.solve(x, 0, tr != 0); });
    Mat E = tr ? Ai.H() : Ai;
    CHECK(dist(S, E) <= tol * Ai.maxabs(), (tr ? "conjugate-transposed" : "plain") << " LU solve off by " << (double)dist(S, E) << ", allowed " << (double)(tol * Ai.maxabs()));
    Mat M = action(n, [&](hif::Array<V> &x) { hif::Array<V> y(n); lu.multiply(x, y, 0, tr != 0); for (size_t i = 0; i < n; ++i) x[i] = y[i]; });
    CHECK(dist(M, tr ? A.H() : A) <= (LR)(4 * n) * EPS * A.maxabs(), (tr ? "conjugate-transposed" : "plain") << " multiplication off by " << (double)dist(M, tr ? A.H() : A));
    typedef std::array<V, 3> Row;
    hif::Array<Row>          B(n);
    Mat                      b(n, 3);
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < 3; ++k) b(i, k) = up(B[i][k] = gen_val(src));
    lu.solve_mrhs(B, 0, tr != 0);
    Mat e = E * b;
    LR  bm = b.maxabs();
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < 3; ++k) CHECK(std::abs(up(B[i][k]) - e(i, k)) <= tol * Ai.normInf() * bm * (LR)n, "LU solve of several right-hand sides off in column " << k);
    // other containers and value types
#if VT == 1
    typedef double W;
#elif VT == 3
    typedef std::complex<double> W;
#else
    typedef V W;
#endif
    std::vector<W>           xs(n), ys(n);
    hif::Array<W>            xa(n);
    hif::Array<std::array<W, 2>> xb(n);
    for (size_t i = 0; i < n; ++i) xs[i] = xa[i] = xb[i][0] = W(Down<V>::f(b(i, 0))), xb[i][1] = W(Down<V>::f(b(i, 1)));
    lu.multiply(xs, ys, 0, tr != 0);
    Mat Ab = (tr ? A.H() : A) * b;
    for (size_t i = 0; i < n; ++i) CHECK(std::abs(up(ys[i]) - Ab(i, 0)) <= (LR)(8 * n) * EPS * A.normInf() * (1 + (tr ? (LR)n : 0)) * bm, (tr ? "transposed " : "") << "LU multiplication in other containers off in row " << i);
    lu.solve(xs, 0, tr != 0);
    lu.solve(xa, 0, tr != 0);
    lu.solve_mrhs(xb, 0, tr != 0);
    for (size_t i = 0; i < n; ++i) {
      LR t = tol * Ai.normInf() * bm * (LR)n;
      CHECK(std::abs(up(xs[i]) - e(i, 0)) <= t && std::abs(up(xa[i]) - e(i, 0)) <= t, (tr ? "transposed " : "") << "LU solve in other containers off in row " << i);
      CHECK(std::abs(up(xb[i][0]) - e(i, 0)) <= t && std::abs(up(xb[i][1]) - e(i, 1)) <= t, (tr ? "transposed " : "") << "LU solve of two right-hand sides off in row " << i);
    }
  }
  ctx.nontrivial(n >= 2);
}
