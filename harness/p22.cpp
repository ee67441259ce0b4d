// P22: the off-diagonal sparsification and the Schur complement kernels, serial and threaded, against
// their dense definitions.
#include "fact.hpp"
namespace {
template <class T>
struct RandV {
  static T f(Src &s) { return T((s.chance(1, 2) ? 1 : -1) * (0.05 + s.unit())); }
};
template <class T>
struct RandV<std::complex<T>> {
  static std::complex<T> f(Src &s) { double a = s.unit() - 0.5; return std::complex<T>(a, s.unit() - 0.5); }
};
typedef hif::CRS<V, int> CR;
typedef hif::CCS<V, int> CC;
// a cheap generator for big blocks: the choice sequence only holds a seed
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
template <class T>
struct LV {
  static T f(Lcg &g) { return T(g.unit() * 2 - 1); }
};
template <class T>
struct LV<std::complex<T>> {
  static std::complex<T> f(Lcg &g) { double a = g.unit() * 2 - 1; return std::complex<T>(a, g.unit() * 2 - 1); }
};
inline Sp rand_sp(Lcg &g, size_t m, size_t n, double dens, int vals, bool unsorted = false) {
  Sp A(m, n);
  for (size_t i = 0; i < m; ++i) {
    if (n && g.unit() < 0.05) continue;
    for (size_t j = 0; j < n; ++j)
      if (g.unit() < dens) A.r[i].push_back({(int)j, vals ? V(R(int(g.unit() * 7) - 3)) : LV<V>::f(g)});
    if (unsorted)
      for (size_t k = A.r[i].size(); k > 1; --k) std::swap(A.r[i][k - 1], A.r[i][g.next() % k]);
  }
  return A;
}
template <class CS>
std::vector<std::map<int, V>> rows_of(const CS &A, size_t np, size_t ni, const char *what) {
  std::vector<std::map<int, V>> r(np);
  if (!np) return r;
  CHECK(A.ind_start().size() == np + 1 && A.ind_start()[0] == 0, what << ": pointer array of length " << A.ind_start().size());
  for (size_t i = 0; i < np; ++i) {
    CHECK(A.ind_start()[i] <= A.ind_start()[i + 1], what << ": pointers decrease at " << i);
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      CHECK((size_t)k < A.inds().size() && (size_t)k < A.vals().size(), what << ": too few entries stored");
      CHECK(A.inds()[k] >= 0 && (size_t)A.inds()[k] < ni, what << ": index " << A.inds()[k]);
      CHECK(r[i].emplace(A.inds()[k], A.vals()[k]).second, what << ": index " << A.inds()[k] << " twice in " << i);
    }
  }
  CHECK(A.inds().size() == (size_t)A.ind_start()[np] && A.vals().size() == A.inds().size(), what << ": array lengths");
  return r;
}
// per row: the allowed number of largest entries
inline void check_dropped(const std::vector<std::map<int, V>> &b4, const std::vector<std::map<int, V>> &af, const std::vector<long> &ref, double alpha, const char *what) {
  for (size_t i = 0; i < b4.size(); ++i) {
    size_t lim = alpha > 0 ? std::min(b4[i].size(), (size_t)std::ceil(alpha * ref[i])) : 0;
    CHECK(af[i].size() == lim, what << " " << i << " keeps " << af[i].size() << " of " << b4[i].size() << " entries, allowed " << lim);
    double lo = 1e300, hi = 0;
    for (auto &e : af[i]) {
      auto it = b4[i].find(e.first);
      CHECK(it != b4[i].end() && biteq(it->second, e.second), what << " " << i << ": entry " << e.first << " changed");
      lo = std::min(lo, (double)std::abs(e.second));
    }
    for (auto &e : b4[i]) if (!af[i].count(e.first)) hi = std::max(hi, (double)std::abs(e.second));
    CHECK(hi <= lo, what << " " << i << ": dropped an entry of size " << hi << ", kept one of size " << lo);
  }
}
}  // namespace

static void offsets(Src &src, Ctx &ctx, bool big) {
  size_t N = big ? 201 + src.below(60) : src.below(30), m = big ? 1 + src.below(60) : 1 + src.below(20);
  Lcg    g{src.below(1u << 30)};
  double dens = src.pick({0.3, 0.7, 0.1, 0.0, 1.0});
  int    ties = src.chance(1, 4);
  Sp     l = rand_sp(g, N, m, dens, ties, src.chance(1, 2)), u = rand_sp(g, N, m, dens, ties, src.chance(1, 2));
  double aL = src.pick({1., 0.5, 2., 0.1, 10., 0., -1.}), aU = src.chance(1, 2) ? aL : src.pick({1., 3., 0.3, 0., -2.});
  int    nt = src.pick({1, 2, 3, 4, 5, 8});
  CR     L = l.crs<>();
  CC     U(m, N);
  {
    CR Ut = u.crs<>();
    U.col_start() = Ut.row_start(), U.row_ind() = Ut.col_ind(), U.vals() = Ut.vals();
  }
  typename CR::iparray_type rl(N + 1), ru(N + 1);
  std::vector<long>         vl(N), vu(N);
  rl[0] = ru[0] = 0;
  for (size_t i = 0; i < N; ++i) {
    vl[i] = 1 + g.next() % 9, vu[i] = 1 + g.next() % 9;
    rl[i + 1] = rl[i] + vl[i], ru[i + 1] = ru[i] + vu[i];
  }
  ctx.desc << "N=" << N << " m=" << m << " density=" << dens << " ties=" << ties << " alpha=" << aL << "/" << aU << " threads=" << nt << " seed=" << g.s;
  auto             bl = rows_of(L, N, m, "L_E"), bu = rows_of(U, N, m, "U_F");
  size_t           w = 2 * (N + m);
  hif::Array<V>    b1(w), b2(w);
  hif::Array<int>  i1(w), i2(w);
  if (src.chance(1, 3)) {
    hif::drop_L_E(rl, aL, L, b1, i1);
    hif::drop_U_F(ru, aU, U, b2, i2);
    ctx.label("serial");
  } else {
    hif::mt::drop_L_E_and_U_F(rl, aL, ru, aU, L, U, b1, i1, b2, i2, nt);
    ctx.label("threads=" + std::to_string(nt));
  }
  check_dropped(bl, rows_of(L, N, m, "L_E"), vl, aL, "L_E row");
  check_dropped(bu, rows_of(U, N, m, "U_F"), vu, aU, "U_F column");
  ctx.nontrivial(N > 1 && L.nnz() + U.nnz() < l.nnz() + u.nnz());
}
PBT_PROP(offsets, 6000, 100000) { offsets(src, ctx, false); }
PBT_PROP(offsets_big, 400, 8000) { offsets(src, ctx, true); }

static void schur(Src &src, Ctx &ctx, bool big) {
  size_t N = big ? 201 + src.below(40) : src.below(16), m = big ? 60 + src.below(40) : src.below(12), n = N + m;
  if (!n) throw pbt::Discard{};
  Lcg    g{src.below(1u << 30)};
  double dens = big ? 0.9 : src.pick({0.3, 0.7, 0.1, 0.0, 1.0});
  Sp     a = rand_sp(g, n, n, big ? 0.05 : src.pick({0.3, 0.1, 0.8, 0.0}), 0), le = rand_sp(g, N, m, dens, 0, src.chance(1, 2)), uf = rand_sp(g, m, N, dens, 0, src.chance(1, 2));
  hif::Array<R>          s(n), t(n);
  hif::Array<V>          d(m + src.below(3));
  hif::BiPermMatrix<int> p, q;
  p.resize(n), q.resize(n);
  bool eye = src.chance(1, 4);
  for (auto *x : {&p, &q}) {
    for (size_t i = 0; i < n; ++i) (*x)[i] = i;
    if (!eye) for (size_t k = n; k > 1; --k) std::swap((*x)[k - 1], (*x)[g.next() % k]);
    x->build_inv();
  }
  for (size_t i = 0; i < n; ++i) s[i] = R(std::exp2(int(g.next() % 9) - 4)), t[i] = R(0.5 + g.unit());
  for (auto &x : d) x = LV<V>::f(g);
  int nt = src.pick({1, 2, 3, 4, 7});
  ctx.desc << "n=" << n << " m=" << m << " nnz(A)=" << a.nnz() << " nnz(L_E)=" << le.nnz() << " nnz(U_F)=" << uf.nnz() << " threads=" << nt << " seed=" << g.s;
  CR A = a.crs<>(), LE = le.crs<>(), UF = uf.crs<>();
  CR S, S1;
  typedef typename hif::ValueTypeMixedTrait<V>::boost_type BV;
  hif::SparseVector<V, int> buf(2 * n);
  S = hif::mt::compute_Schur_simple(s, A, t, p, q, m, LE, d, UF, buf, nt);
  if (m == n) { CHECK(S.nrows() == 0 && S.nnz() == 0, "Schur complement without rows"); return; }
  hif::SparseVector<V, int> buf1(2 * n);
  S1 = hif::compute_Schur_simple(s, A, t, p, q, m, LE, d, UF, buf1);
  CHECK(S.nrows() == N && S.ncols() == N && S1.nrows() == N && S1.ncols() == N, "size " << S.nrows() << "x" << S.ncols() << ", expected " << N);
  Mat D(N, N), B(N, N);
  std::vector<std::set<int>> pat(N);
  for (size_t i = 0; i < N; ++i) {
    int r = p[m + i];
    for (auto &e : a.r[r]) {
      int j = q.inv(e.first) - (int)m;
      if (j < 0) continue;
      X v = (LR)s[r] * up(e.second) * (LR)t[e.first];
      D(i, j) += v, B(i, j) += std::abs(v), pat[i].insert(j);
    }
    for (auto &e : le.r[i])
      for (auto &f : uf.r[e.first]) {
        X v = up(e.second) * up(d[e.first]) * up(f.second);
        D(i, f.first) -= v, B(i, f.first) += std::abs(v), pat[i].insert(f.first);
      }
  }
  for (int w = 0; w < 2; ++w) {
    const CR &C = w ? S1 : S;
    size_t    nz = 0;
    for (auto &x : pat) nz += x.size();
    CHECK(C.nnz() == nz, (w ? "serial" : "threaded") << " Schur complement has " << C.nnz() << " entries, expected " << nz);
    if (!nz) continue;
    for (size_t i = 0; i < N; ++i)
      for (auto k = C.row_start()[i]; k < C.row_start()[i + 1]; ++k) {
        int j = C.col_ind()[k];
        CHECK(j >= 0 && (size_t)j < N && pat[i].count(j), "entry (" << i << "," << j << ") should not exist");
        CHECK(k == C.row_start()[i] || C.col_ind()[k - 1] < j, "row " << i << " is not sorted");
        CHECK(std::abs(up(C.vals()[k]) - D(i, j)) <= 4 * (m + 8) * EPS * std::abs(B(i, j)) + std::numeric_limits<R>::min(), (w ? "serial" : "threaded") << " entry (" << i << "," << j << ") is " << C.vals()[k] << ", expected " << (double)std::real(D(i, j)));
        if (!w) CHECK(biteq(C.vals()[k], S1.vals()[k]) && C.col_ind()[k] == S1.col_ind()[k], "entry (" << i << "," << j << ") depends on the number of threads");
      }
  }
  ctx.label("threads=" + std::to_string(nt));
  ctx.nontrivial(N > 1 && m && LE.nnz() && UF.nnz());
}
PBT_PROP(schur, 8000, 150000) { schur(src, ctx, false); }
PBT_PROP(schur_big, 60, 1200) { schur(src, ctx, true); }

// ---------------------------------------------------------------- factor blocks
PBT_PROP(blocks, 5000, 80000) {
  size_t n = 1 + src.below(14), m = src.below(n + 1);
  Lcg    g{src.below(1u << 30)};
  Sp     a = rand_sp(g, n, n, src.pick({0.3, 0.7, 0.1, 1.0, 0.0}), 0);
  hif::Array<R>          s(n), t(n);
  hif::BiPermMatrix<int> p, q;
  p.resize(n), q.resize(n);
  for (auto *x : {&p, &q}) {
    for (size_t i = 0; i < n; ++i) (*x)[i] = i;
    for (size_t k = n; k > 1; --k) std::swap((*x)[k - 1], (*x)[g.next() % k]);
    x->build_inv();
  }
  for (size_t i = 0; i < n; ++i) s[i] = R(std::exp2(int(g.next() % 9) - 4)), t[i] = R(0.5 + g.unit());
  ctx.desc << "n=" << n << " m=" << m << " nnz=" << a.nnz() << " seed=" << g.s;
  CR A = a.crs<>();
  CC C = a.ccs<>();
  hif::Array<V> buf(2 * n);
  auto d = hif::internal::extract_perm_diag(s, C, t, m, p, q);
  CHECK(d.size() == m, "diagonal length " << d.size());
  auto at = [&](size_t i, size_t j) -> X {
    for (auto &e : a.r[i]) if (e.first == (int)j) return (LR)s[i] * up(e.second) * (LR)t[j];
    return X(0);
  };
  for (size_t i = 0; i < m; ++i) CHECK(std::abs(up(d[i]) - at(p[i], q[i])) <= 8 * EPS * std::abs(at(p[i], q[i])), "diagonal entry " << i);
  if (m < n) {
    auto E = hif::internal::extract_E(s, A, t, m, p, q);
    auto F = hif::internal::extract_F(s, C, t, m, p, q, buf);
    size_t N = n - m;
    CHECK(E.nrows() == N && E.ncols() == m && F.nrows() == m && F.ncols() == N, "block sizes");
    for (int w = 0; w < 2; ++w) {
      const CC &T = w ? F : E;
      size_t    nr = w ? m : N, ncl = w ? N : m, nz = 0;
      if (!nr || !ncl) continue;
      std::vector<std::vector<std::pair<int, X>>> want(ncl);
      for (size_t i = 0; i < n; ++i)
        for (auto &e : a.r[i]) {
          int r = p.inv(i), c = q.inv(e.first);
          if (w ? (r < (int)m && c >= (int)m) : (r >= (int)m && c < (int)m)) want[w ? c - m : c].push_back({w ? r : r - (int)m, at(i, e.first)}), ++nz;
        }
      CHECK(T.nnz() == nz, (w ? "F" : "E") << " has " << T.nnz() << " entries, expected " << nz);
      if (!nz) continue;
      for (size_t j = 0; j < ncl; ++j) {
        std::sort(want[j].begin(), want[j].end(), [](const std::pair<int, X> &x, const std::pair<int, X> &y) { return x.first < y.first; });
        size_t k = 0;
        for (auto x = T.col_start()[j]; x < T.col_start()[j + 1]; ++x, ++k) {
          CHECK(k < want[j].size() && T.row_ind()[x] == want[j][k].first, (w ? "F" : "E") << " column " << j << " index " << T.row_ind()[x]);
          CHECK(std::abs(up(T.vals()[x]) - want[j][k].second) <= 8 * EPS * std::abs(want[j][k].second), (w ? "F" : "E") << " column " << j << " value");
        }
        CHECK(k == want[j].size(), (w ? "F" : "E") << " column " << j << " misses entries");
      }
    }
  }
  ctx.nontrivial(n > 2 && m && m < n && a.nnz() > n);
}
