// P10: singular systems are factorized safely and with the right numerical rank.
#include "fact.hpp"
namespace {
typedef hif::HIF<V> H;
inline V small(Src &s) {
  int a = 1 + (int)s.below(3);
  if (s.chance(1, 2)) a = -a;
#if VT >= 2
  if (s.chance(1, 3)) return V(a, (int)s.below(3) - 1);
#endif
  return V(a);
}
const char *sname[] = {"zero rows", "zero columns", "repeated rows", "repeated columns", "low rank", "graph laplacian", "zero", "structural", "blocks", "row sums", "symmetric low rank"};
inline Sp gen_singular(Src &s, size_t nmax, int &kind, bool &symm) {
  kind     = s.below(11);
  size_t n = 1 + s.below(nmax);
  symm     = false;
  Sp A(n, n);
  auto base = [&]() {
    int per = 1 + s.below(4);
    for (size_t i = 0; i < n; ++i) {
      for (int k = s.below(per + 1); k > 0; --k) A.set(i, s.below(n), small(s));
      A.set(i, i, small(s) * V((R)(per + 2)));
    }
  };
  switch (kind) {
    case 0:
    case 1: {
      base();
      size_t k = 1 + s.below(std::max<size_t>(1, n / 3));
      Sp     B(n, n);
      std::set<int> z;
      while (k--) z.insert(s.below(n));
      bool expl = s.chance(1, 3);
      for (size_t i = 0; i < n; ++i)
        for (auto &e : A.r[i])
          if (!z.count(kind ? e.first : (int)i)) B.set(i, e.first, e.second);
          else if (expl) B.set(i, e.first, V(0));
      A = B;
      break;
    }
    case 2:
    case 3: {
      base();
      size_t k = 1 + s.below(3);
      if (n < 2) { A = Sp(n, n); break; }
      while (k--) {
        size_t a = s.below(n), b = s.below(n);
        if (a == b) b = (a + 1) % n;
        R f = (R)s.pick({1.0, 2.0, -1.0});
        if (kind == 2) {
          A.r[a] = A.r[b];
          for (auto &e : A.r[a]) e.second *= f;
        } else {
          Sp B(n, n);
          for (size_t i = 0; i < n; ++i)
            for (auto &e : A.r[i]) {
              if (e.first != (int)a) B.set(i, e.first, e.second);
              if (e.first == (int)b) B.set(i, a, e.second * f);
            }
          A = B;
        }
      }
      break;
    }
    case 4:
    case 10: {
      n        = std::min<size_t>(n, 14);
      size_t r = s.below(n);
      Mat    C(n, r), D(r, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < r; ++j) {
          if (s.chance(1, 3)) C(i, j) = X((LR)((int)s.below(5) - 2));
          D(j, i) = s.chance(1, 3) ? X((LR)((int)s.below(5) - 2)) : X(0);
        }
      for (size_t j = 0; j < r; ++j) C(j, j) += X(3), D(j, j) += X(3);
      if (kind == 10) {
        D = C.H(), symm = true;
        for (size_t j = 0; j < r; ++j)
          if (s.chance(1, 3))
            for (size_t i = 0; i < n; ++i) D(j, i) = -D(j, i);
      }
      Mat M = C * D;
      A     = Sp(n, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
          if (M(i, j) != X(0)) A.set(i, j, Down<V>::f(M(i, j)));
      break;
    }
    case 5: {
      symm = true;
      for (size_t i = 0; i + 1 < n; ++i)
        if (!s.chance(1, 8)) {
          V w = V((R)(1 + s.below(3)));
          A.set(i, i + 1, -w), A.set(i + 1, i, -w);
        }
      for (size_t k = s.below(n + 1); k > 0 && n > 1; --k) {
        size_t i = s.below(n), j = s.below(n);
        if (i == j) continue;
        V w = V((R)(1 + s.below(3)));
        A.set(i, j, -w), A.set(j, i, -w);
      }
      for (size_t i = 0; i < n; ++i) {
        V t = V(0);
        for (auto &e : A.r[i]) t -= e.second;
        A.set(i, i, t);
      }
      break;
    }
    case 6: {
      symm = true;
      for (size_t k = s.below(4); k > 0; --k) { size_t i = s.below(n), j = s.below(n); A.set(i, j, V(0)), A.set(j, i, V(0)); }
      break;
    }
    case 7: {  // a zero block with more rows plus columns than n
      base();
      size_t p = 1 + s.below(n), q = n + 1 - p;
      Sp     B(n, n);
      std::vector<int> rp(n), cp(n);
      std::iota(rp.begin(), rp.end(), 0), std::iota(cp.begin(), cp.end(), 0);
      for (size_t i = n; i-- > 1;) std::swap(rp[i], rp[s.below(i + 1)]), std::swap(cp[i], cp[s.below(i + 1)]);
      std::set<int> zr(rp.begin(), rp.begin() + p), zc(cp.begin(), cp.begin() + q);
      for (size_t i = 0; i < n; ++i)
        for (auto &e : A.r[i])
          if (!(zr.count(i) && zc.count(e.first))) B.set(i, e.first, e.second);
      A = B;
      break;
    }
    case 8: {
      size_t k = s.below(n + 1);
      base();
      Sp B(n, n);
      for (size_t i = 0; i < k; ++i)
        for (auto &e : A.r[i])
          if (e.first < (int)k) B.set(i, e.first, e.second);
      for (size_t i = k; i < n; ++i)
        for (size_t j = k; j < n; ++j) B.set(i, j, V((R)((i - k + 1) % 3) + (R)1) * V((R)((j - k) % 2) + (R)1));
      if (k == n) B.r[0].clear();
      A = B;
      break;
    }
    default: {
      base();
      for (size_t i = 0; i < n; ++i) {
        V t = V(0);
        for (auto &e : A.r[i])
          if (e.first != (int)i) t -= e.second;
        A.set(i, i, t);
      }
    }
  }
  if (s.chance(1, 4) && A.n > 1) {  // hide the structure
    n = A.n;
    std::vector<int> rp(n), cp(n);
    std::iota(rp.begin(), rp.end(), 0), std::iota(cp.begin(), cp.end(), 0);
    for (size_t i = n; i-- > 1;) std::swap(rp[i], rp[s.below(i + 1)]), std::swap(cp[i], cp[s.below(i + 1)]);
    Sp B(n, n);
    for (size_t i = 0; i < n; ++i)
      for (auto &e : A.r[i]) B.set(rp[i], symm ? rp[e.first] : cp[e.first], e.second);
    A = B;
  }
  return A;
}
}  // namespace
PBT_PROP(singular, 9000, 300000) {
  bool     exact = src.chance(3, 4), symm;
  FactCase c;
  c.p = gen_params(src, exact);
  if (src.chance(1, 2)) c.p.kappa = c.p.kappa_d = src.pick({1.5, 1.2, 1.05});
  if (src.chance(1, 2)) c.p.dense_thres = 2000, c.p.rho = 0.5;
  int kind;
  c.g      = gen_singular(src, src.chance(1, 10) ? 60 : 16, kind, symm);
  size_t n = c.g.n;
  c.via    = src.chance(1, 3);
  if (symm && !IS_CPLX && src.chance(1, 2)) {
    c.p.is_symm = 1;
    if (kind == 5 && src.chance(1, 3)) {
      c.p.spd = 1;
      if (src.chance(1, 2)) {  // negative semidefinite
        c.p.spd = -1;
        for (auto &r : c.g.r)
          for (auto &e : r) e.second = -e.second;
      }
    }
  } else if (symm && src.chance(1, 4))
    c.m0 = src.below(n + 1);
  if (src.chance(1, 10)) c.p.pre_scale = src.pick({1, 2, 3, -1});
  ctx.desc << sname[kind] << " via=" << c.via << " m0=" << c.m0;
  desc_params(ctx.desc, c.p);
  ctx.desc << " A=";
  c.g.describe(ctx.desc);
  ctx.label(sname[kind]);
  Mat A = c.g.dense();
  H   M;
  bool threw = false;
  std::string what;
  try { do_factorize(M, c); } catch (const std::exception &e) { threw = true, what = e.what(); }
  if (threw) {
    CHECK(M.empty(), "a rejected factorization left levels behind");
    ctx.label("rejected");
    ctx.nontrivial(n >= 2);
    return;
  }
  auto sv = svals(A);
  LR   s1 = sv.empty() ? 0 : sv[0];
  size_t rank = 0;
  for (auto &s : sv) rank += s > 1e-14L * s1 && s > 0;
  LR cond = rank ? s1 / sv[rank - 1] : 1;
  // finite factors
  for (auto &p : M.precs()) {
    for (size_t i = 0; i < p.m; ++i) CHECK(finite_(up(p.d_B[i])), "non-finite pivot " << p.d_B[i]);
    for (auto v : p.L_B.vals()) CHECK(finite_(up(v)), "non-finite entry of L");
    for (auto v : p.U_B.vals()) CHECK(finite_(up(v)), "non-finite entry of U");
    for (auto v : p.s) CHECK(finite_(up(v)) && v > 0, "bad row scaling " << v);
    for (auto v : p.t) CHECK(finite_(up(v)) && v > 0, "bad column scaling " << v);
  }
  CHECK(M.schur_rank() <= M.schur_size(), "rank " << M.schur_rank() << " of a block of size " << M.schur_size());
  LR grow = std::pow(std::max<LR>(3, std::max(c.p.kappa, c.p.kappa_d)) / 3, 2.0L * M.levels());
  LR G    = tolG(c) * grow;
  for (int tr = 0; tr < 2; ++tr) {
    hif::Array<V> b = gen_arr(src, n), x(n);
    for (auto &v : x) v = V(7);
    M.solve(b, x, tr != 0);
    for (size_t i = 0; i < n; ++i) CHECK(finite_(up(x[i])), "solve of finite data gives " << x[i] << " at " << i);
    M.mmultiply(b, x, tr != 0);
    for (size_t i = 0; i < n; ++i) CHECK(finite_(up(x[i])), "multiplication of finite data gives " << x[i] << " at " << i);
  }
  ctx.nontrivial(n >= 2 && rank < n);
  if (!exact) { ctx.label("dropped"); return; }
  // rounding noise must stay clear of the rank threshold eps^(-2/3)
  LR noise = grow * cond * (c.p.no_pre ? 30 : 1) * (LR)n * EPS * (IS_SINGLE ? 3 : 50) * (c.m0 ? 1e3L : 1);
  bool clear = noise < std::pow(EPS, 2.0L / 3) && !(c.p.pre_scale && cond > 100);
  // a last block which is null up to rounding carries no scale to judge its rank by
  // and neither do inner levels made of such rounding noise, which are scaled again
  if (M.levels() > 2 || !M.schur_size()) { ctx.label(n - rank ? "several levels" : "regular"); return; }
  if (clear && n - rank == M.schur_size() && M.schur_size() && M.schur_rank()) { ctx.label("null block"); return; }
  if (clear) {
    CHECK(M.schur_size() - M.schur_rank() == n - rank, "numerical rank deficiency " << M.schur_size() - M.schur_rank() << " (" << M.schur_rank() << " of " << M.schur_size() << ") but the matrix of size " << n << " has rank " << rank << ", condition " << (double)cond << " levels " << M.levels());
    CHECK(M.rank() == rank, "rank() gives " << M.rank() << " instead of " << rank);
  } else { ctx.label("illcond"); return; }
  for (int tr = 0; tr < 2; ++tr) {
    Mat B = tr ? A.H() : A;
    Vec z = gen_vec_x(src, n);
    for (auto &v : z) v = up(Down<V>::f(v));
    Vec bx = B * z;
    hif::Array<V> b(n), x(n);
    for (size_t i = 0; i < n; ++i) b[i] = Down<V>::f(bx[i]);
    M.solve(b, x, tr != 0);
    Vec y  = lift(x), ay = B * y;
    LR  xn = vmax(y), zn = vmax(z), d = vdist(ay, bx), nrm = B.normInf();
    LR  tol = G * EPS * cond * nrm * (zn + xn);
    CHECK(d <= tol + 1e-30L, (tr ? "transposed " : "") << "consistent system: residual " << (double)d << ", allowed " << (double)tol << " |x|=" << (double)xn);
    // and not a wildly large one
    CHECK(xn <= G * cond * (LR)n * (zn + 1e-30L), "consistent system: solution of size " << (double)xn << " for data of size " << (double)zn);
  }
  ctx.label("judged");
}
