// P21: invalid matrices, sizes, uses of empty objects and extreme values between valid operations.
#include "fact.hpp"

namespace {
typedef hif::HIF<V, int> H;
#if VT == 0
typedef float O;
#elif VT == 1
typedef double O;
#elif VT == 2
typedef std::complex<float> O;
#else
typedef std::complex<double> O;
#endif
inline bool thrown(const std::function<void()> &f, std::string *why = nullptr) {
  try { f(); } catch (const std::exception &e) {
    if (why) *why = e.what();
    return true;
  }
  return false;
}
template <class M>
inline M convert(const Sp &g, int base) {
  Sp   t = M::ROW_MAJOR ? g : g.T();
  M    A(g.m, g.n);
  auto &p = A.ind_start();
  size_t k = 0;
  for (size_t i = 0; i < t.r.size(); ++i) p[i + 1] = p[i] + (int)t.r[i].size();
  A.inds().resize(p[t.r.size()]);
  A.vals().resize(p[t.r.size()]);
  for (auto &r : t.r)
    for (auto &e : r) { A.inds()[k] = e.first + base; A.vals()[k++] = Down<typename M::value_type>::f(e.second); }
  for (auto &x : p) x += base;
  return A;
}
// copies into arrays without spare room, so that reads past the end are seen
template <class A>
inline void tighten(A &a) {
  A b(a.size());
  std::copy(a.cbegin(), a.cend(), b.begin());
  a.swap(b);
}
// makes a matrix invalid; returns a description or nothing if not possible
template <class M>
inline std::string corrupt(Src &s, M &A, int base, int kind) {
  size_t n   = A.nrows();
  auto & p   = A.ind_start();
  auto & ii  = A.inds();
  size_t nnz = ii.size();
  std::ostringstream o;
  switch (kind) {
    case 0: {
      if (!nnz) return "";
      size_t k = s.below(nnz);
      ii[k]    = s.pick<int>({(int)n + base, -1 + base, -1000, 2147483647, (int)n + base + 3, (int)-2147483647 - 1});
      o << "index " << ii[k] << " at " << k;
      break;
    }
    case 1: {
      for (size_t t = 0; t < 20; ++t) {
        size_t i = s.below(n);
        size_t a = p[i] - base, b = p[i + 1] - base;
        if (b - a < 2) continue;
        size_t k = a + s.below(b - a - 1);
        bool   d = s.chance(1, 2);
        if (d) ii[k + 1] = ii[k];
        else std::swap(ii[k], ii[k + 1]);
        o << (d ? "repeated" : "unsorted") << " at " << k;
        return o.str();
      }
      return "";
    }
    case 2: {
      if (n < 2) return "";
      size_t i = 1 + s.below(n - 1);
      int    w = s.below(3);
      if (w == 0) p[i] = p[i + 1] + 1 + (int)s.below(5);
      else if (w == 1) { if (p[i - 1] == base) p[i] = -1 - (int)s.below(100); else p[i] = p[i - 1] - 1; }
      else p[i] = s.pick<int>({2147483647, -2147483647 - 1, 1000000, -1000000});
      o << "position " << p[i] << " at " << i;
      break;
    }
    case 3: p[n] += 1 + (int)s.below(s.chance(1, 2) ? 3 : 1000000); o << "last position " << p[n]; break;
    case 4: p[0] = s.pick<int>({2, -1, 100, -100000}); o << "first position " << p[0]; break;
    case 5: p.resize(s.below(n + 1)); tighten(p); o << "only " << p.size() << " positions"; break;
    case 6: if (!nnz) return ""; ii.resize(s.below(nnz)); tighten(ii); o << "only " << ii.size() << " indices"; break;
    case 7: if (!nnz) return ""; A.vals().resize(s.below(nnz)); tighten(A.vals()); o << "only " << A.vals().size() << " values"; break;
    case 8: {
      if (!nnz) return "";
      // the other base
      if (base) { for (auto &x : p) --x; bool any = false; for (auto x : ii) any |= x == (int)n; if (!any) return ""; }
      else { for (auto &x : p) ++x; bool any = false; for (auto x : ii) any |= x == 0; if (!any) return ""; }
      o << "mixed bases";
      break;
    }
    default: return "";
  }
  return o.str();
}
// what the object should be
struct Model {
  std::unique_ptr<H> ref;  // factorized with the same input by another object
};
inline hif::Array<V> rnd_vec(Src &s, size_t n) {
  hif::Array<V> b(n);
  for (auto &v : b) v = gen_val(s);
  return b;
}
inline bool same(const hif::Array<V> &a, const hif::Array<V> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!biteq(a[i], b[i]) && (a[i] == a[i] || b[i] == b[i]) && !(a[i] == b[i])) return false;
  return true;
}
// the object is the expected one, or empty if it may be
inline bool usable(Src &s, H &h, Model &m, bool may_be_empty, const std::string &after) {
  if (h.empty()) {
    CHECK(may_be_empty || !m.ref, "the object got empty by " << after);
    m.ref.reset();
    CHECK(h.levels() == 0 && h.nnz() == 0 && h.nnz_ef() == 0 && h.nnz_ldu() == 0 && h.rank() == 0 && h.schur_rank() == 0 && h.schur_size() == 0, "sizes of an empty object after " << after);
    hif::Array<V> b = rnd_vec(s, h.nrows()), x = rnd_vec(s, h.nrows());
    CHECK(thrown([&]() { h.solve(b, x); }) && thrown([&]() { h.solve(b, x, true); }) && thrown([&]() { h.mmultiply(b, x); }), "an empty object was used after " << after);
    return true;
  }
  CHECK(m.ref, "the object is not empty after " << after << " without a factorization");
  H &r = *m.ref;
  CHECK(h.nrows() == r.nrows() && h.ncols() == r.ncols() && h.levels() == r.levels() && h.nnz() == r.nnz() && h.rank() == r.rank() && h.schur_rank() == r.schur_rank(), "sizes or statistics changed by " << after);
  for (size_t k = 0; k < 6; ++k) CHECK(h.stats(k) == r.stats(k), "statistic " << k << " changed by " << after);
  size_t        n = r.nrows();
  hif::Array<V> b = rnd_vec(s, n), x(n), y(n);
  int           w = s.below(3);
  if (w < 2) { h.solve(b, x, w == 1); r.solve(b, y, w == 1); }
  else { h.mmultiply(b, x); r.mmultiply(b, y); }
  CHECK(same(x, y), "solutions or products changed by " << after);
  return true;
}
inline FactCase quiet_fact(Src &s, size_t nmax) {
  Ctx c;
  return gen_fact(s, c, nmax, s.chance(1, 2));
}
// factorize in one of the ways of the interface
template <class M>
inline void fac(H &h, const M &A, const FactCase &c, bool raw) {
  if (raw) h.template factorize<M::ROW_MAJOR>(A.nrows(), A.ind_start().data(), A.inds().data(), A.vals().data(), c.p, c.m0);
  else h.factorize(A, c.p, c.m0);
}
template <class M>
inline void good(Src &s, Ctx &ctx, H &h, Model &m) {
  FactCase c = quiet_fact(s, 10);
  if (s.chance(1, 2)) c.p.check = 1;
  M    A   = convert<M>(c.g, s.chance(1, 3));
  bool raw = s.chance(1, 3);
  std::unique_ptr<H> r(new H());
  std::string why, why2;
  ctx.desc << " good" << c.g.n;
  bool t1 = thrown([&]() { fac(*r, A, c, raw); }, &why), t2 = thrown([&]() { fac(h, A, c, raw); }, &why2);
  CHECK(t1 == t2, "a used object " << (t2 ? "rejected the matrix: " + why2 : "accepted the matrix") << ", a new one did not: " << why);
  if (t1) { usable(s, h, m, true, "a failed factorization"); return; }
  m.ref = std::move(r);
  usable(s, h, m, false, "a factorization");
}
template <class M>
inline bool bad(Src &s, Ctx &ctx, H &h, Model &m) {
  FactCase c = quiet_fact(s, 10);
  c.p.check  = 1;
  int  base  = s.chance(1, 3);
  M    A     = convert<M>(c.g, base);
  tighten(A.ind_start());
  tighten(A.inds());
  tighten(A.vals());
  bool raw   = s.chance(1, 4);
  int  kind  = raw ? (int)s.pick({0, 1, 2, 8}) : (int)s.below(10);
  std::string what;
  if (kind == 9) {  // not square
    Sp g(c.g.m, c.g.n);
    g = c.g;
    M B(A.nrows() + (M::ROW_MAJOR ? 0 : 1), A.ncols() + (M::ROW_MAJOR ? 1 : 0));
    if (s.chance(1, 2) || A.nrows() < 2) {
      B.ind_start() = A.ind_start(); B.inds() = A.inds(); B.vals() = A.vals();
    } else {  // further primary indices
      B = M(A.nrows() + (M::ROW_MAJOR ? 1 : 0), A.ncols() + (M::ROW_MAJOR ? 0 : 1));
      for (size_t i = 0; i < A.ind_start().size(); ++i) B.ind_start()[i] = A.ind_start()[i];
      B.ind_start()[A.ind_start().size()] = A.ind_start()[A.ind_start().size() - 1];
      B.inds() = A.inds(); B.vals() = A.vals();
    }
    std::string why;
    what = "a rectangular matrix";
    ctx.desc << " bad:" << what;
    CHECK(thrown([&]() { h.factorize(B, c.p, c.m0); }, &why), what << " was accepted");
  } else {
    what = corrupt(s, A, base, kind);
    if (what.empty()) return false;
    ctx.desc << " bad:" << what << (raw ? " raw" : "");
    ctx.label("kind " + std::to_string(kind));
    CHECK(thrown([&]() { fac(h, A, c, raw); }), "a matrix with an invalid structure was accepted: " << what);
  }
  usable(s, h, m, true, what);
  return true;
}
}  // namespace

PBT_PROP(history, 4000, 60000) {
  Src &  s = src;
  H      h;
  Model  m;
  size_t rejected = 0, good_ = 0;
  for (size_t k = 3 + s.below(10); k--;) {
    switch (s.below(10)) {
      case 0: case 1: {
        int w = s.below(4);
        if (w == 0) good<hif::CRS<V, int>>(s, ctx, h, m);
        else if (w == 1) good<hif::CCS<V, int>>(s, ctx, h, m);
        else if (w == 2) good<hif::CRS<O, int>>(s, ctx, h, m);
        else good<hif::CCS<O, int>>(s, ctx, h, m);
        ++good_;
        break;
      }
      case 2: case 3: case 4: {
        int w = s.below(4);
        rejected += w == 0 ? bad<hif::CRS<V, int>>(s, ctx, h, m) : w == 1 ? bad<hif::CCS<V, int>>(s, ctx, h, m) : w == 2 ? bad<hif::CRS<O, int>>(s, ctx, h, m) : bad<hif::CCS<O, int>>(s, ctx, h, m);
        break;
      }
      case 5: {  // wrong sizes of vectors
        size_t n = h.nrows(), nb = s.chance(1, 3) ? n : s.below(n + 4), nx = s.chance(1, 3) ? n : s.below(n + 4);
        if (nb == n && nx == n) nb = n + 1;
        hif::Array<V> b = rnd_vec(s, nb), x = rnd_vec(s, nx), x0(x, true);
        bool tr = s.chance(1, 2);
        int  w  = s.below(4);
        ctx.desc << " sizes" << w << ':' << nb << ',' << nx;
        auto A = Sp(n ? n : 1, n ? n : 1).crs<>();
        double be[2] = {1e-3, 10.};
        bool t = thrown([&]() {
          if (w == 0) h.solve(b, x, tr, s.below(n + 2));
          else if (w == 1) h.mmultiply(b, x, tr);
          else if (w == 2) h.hifir(A, b, s.below(4), x, tr);
          else h.hifir(A, b, s.below(4), be, x, tr);
        });
        CHECK(t, "vectors of sizes " << nb << " and " << nx << " instead of " << n << " were accepted");
        CHECK(same(x, x0), "the rejected operation wrote to the solution");
        usable(s, h, m, false, "vectors of wrong sizes");
        ++rejected;
        break;
      }
      case 6: {  // several right-hand sides
        size_t n = h.nrows(), nb = s.chance(1, 3) ? n : s.below(n + 4), nx = s.chance(1, 3) ? n : s.below(n + 4);
        if (nb == n && nx == n && !h.empty()) nb = n + 1;
        hif::Array<std::array<V, 2>> b(nb), x(nx);
        for (auto &v : b) v[0] = v[1] = V(1);
        for (auto &v : x) v[0] = v[1] = V(3);
        ctx.desc << " mrhs" << nb << ',' << nx;
        CHECK(thrown([&]() { h.solve_mrhs(b, x); }), "several vectors of sizes " << nb << " and " << nx << " instead of " << n << " were accepted");
        for (auto &v : x) CHECK(v[0] == V(3) && v[1] == V(3), "the rejected operation wrote to the solution");
        usable(s, h, m, false, "several vectors of wrong sizes");
        ++rejected;
        break;
      }
      case 7: {  // operators of another size
        if (h.empty()) break;
        size_t n = h.nrows(), r = s.chance(1, 3) ? n : 1 + s.below(n + 3), q = s.chance(1, 3) ? n : 1 + s.below(n + 3);
        if (r == n && q == n) ++r;
        Sp g(r, q);
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < q; ++j) if (s.chance(2, 3)) g.set(i, j, gen_val(s));
        hif::Array<V> b = rnd_vec(s, n), x = rnd_vec(s, n);
        b[0] = V(1);
        double be[2] = {0., 1e300};
        bool tr = s.chance(1, 2), w = s.chance(1, 2), cs = s.chance(1, 2);
        ctx.desc << " operator" << r << 'x' << q;
        auto go = [&](const auto &A) { if (w) h.hifir(A, b, 2 + s.below(3), x, tr); else h.hifir(A, b, 2 + s.below(3), be, x, tr); };
        bool t = thrown([&]() { if (cs) go(g.crs<>()); else go(g.ccs<>()); });
        bool fin = true;
        for (auto &v : x) fin = fin && finite_(up(v));
        CHECK(t || !fin, "an operator of size " << r << "x" << q << " was accepted with a preconditioner of size " << n);
        usable(s, h, m, false, "an operator of another size");
        ++rejected;
        break;
      }
      case 8: {  // queries out of range
        ctx.desc << " query";
        size_t e = 6 + s.below(100);
        if (s.chance(1, 2)) CHECK(thrown([&]() { h.stats(h.empty() ? s.below(6) : e); }), "statistic " << e << " of " << (h.empty() ? "an empty object" : "an object"));
        else CHECK(thrown([&]() { h.prec(h.precs().size() + s.below(4)); }), "a level out of range");
        ++rejected;
        usable(s, h, m, false, "a query");
        break;
      }
      default: {  // uses of empty objects
        if (s.chance(1, 2)) { h.clear(); ctx.desc << " clear"; }
        if (!h.empty()) break;
        m.ref.reset();
        size_t n = s.chance(1, 2) ? h.nrows() : s.below(6);
        hif::Array<V> b = rnd_vec(s, n), x = rnd_vec(s, n), x0(x, true);
        if (s.chance(1, 2)) for (auto &v : b) v = V(0);
        auto   A = Sp(n ? n : 1, n ? n : 1).crs<>();
        double be[2] = {1e-3, 10.};
        int    w = s.below(4);
        bool   tr = s.chance(1, 2);
        ctx.desc << " empty" << w;
        CHECK(thrown([&]() {
          if (w == 0) h.solve(b, x, tr);
          else if (w == 1) h.mmultiply(b, x, tr);
          else if (w == 2) h.hifir(A, b, s.below(4), x, tr);
          else h.hifir(A, b, s.below(4), be, x, tr);
        }), "an empty object was used");
        CHECK(same(x, x0), "the rejected operation wrote to the solution");
        usable(s, h, m, true, "the use of an empty object");
        ++rejected;
      }
    }
  }
  if (rejected && good_) ctx.nontrivial();
}

// the structure checks of the storages themselves
PBT_PROP(structure, 6000, 100000) {
  auto go = [&](auto A0) {
    typedef decltype(A0) M;
    Sp g = gen_square(src, 10).A;
    M  A = convert<M>(g, 0);
    A.check_validity();
    tighten(A.ind_start());
    tighten(A.inds());
    tighten(A.vals());
    std::string what = corrupt(src, A, 0, (int)src.below(9));
    if (what.empty()) throw pbt::Discard();
    ctx.desc << what;
    CHECK(thrown([&]() { A.check_validity(); }), "a storage with an invalid structure passed the check: " << what);
    ctx.nontrivial();
  };
  if (src.chance(1, 2)) go(hif::CRS<V, int>());
  else go(hif::CCS<V, int>());
}

// extreme entries and options: rejected or completed, and the object is usable afterwards
PBT_PROP(extremes, 4000, 80000) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  H      h;
  Model  m;
  bool   nontrivial = false;
  for (size_t k = 2 + src.below(4); k--;) {
    if (src.chance(1, 3)) { good<hif::CRS<V, int>>(src, ctx, h, m); continue; }
    FactCase c = quiet_fact(src, 10);
    size_t   n = c.g.n;
    auto     A = c.g.crs<>();
    bool     special = false;
    if (src.chance(1, 2)) {
      for (size_t t = 1 + src.below(3); t-- && A.nnz();) {
        size_t p = src.below(A.nnz());
        double v = src.pick<double>({inf, -inf, nan, 1e300, -1e308, 1e-300, 5e-324, 1e38, 1e-38, 0.0});
        A.vals()[p] = Down<V>::f(up(V(1)) * (decltype(up(V(1))))v);
        ctx.desc << " entry" << v;
        nontrivial = special = true;
      }
    }
    if (!special || src.chance(1, 2)) {
      for (size_t t = 1 + src.below(3); t--;) {
        int o = src.below(17);
        double tiny_or_big = src.pick<double>({0., 1e-300, 1e-3, 1., 1e3, 1e10, 1e18, 1e300, inf});
        switch (o) {
          case 0: c.p.tau_L = tiny_or_big; break;
          case 1: c.p.tau_U = tiny_or_big; break;
          case 2: c.p.kappa = tiny_or_big; break;
          case 3: c.p.kappa_d = tiny_or_big; break;
          case 4: c.p.alpha_L = tiny_or_big; break;
          case 5: c.p.alpha_U = tiny_or_big; break;
          case 6: c.p.rho = src.pick<double>({-1., 0., 1e-300, 1., 2., 1e300}); break;
          case 7: c.p.c_d = tiny_or_big; break;
          case 8: c.p.c_h = tiny_or_big; break;
          case 9: c.p.N = src.pick<int>({-2147483647 - 1, -5, 0, 1, 2, 2147483647}); tiny_or_big = c.p.N; break;
          case 10: c.p.rf_par = src.pick<int>({-2147483647 - 1, -1, 0, 2, 2147483647}); tiny_or_big = c.p.rf_par; break;
          case 11: c.p.reorder = src.pick<int>({-1, 0, 1, 2, 3, 4, 5, 1000}); tiny_or_big = c.p.reorder; break;
          case 12: c.p.spd = src.pick<int>({-2147483647 - 1, -1, 0, 1, 2147483647}); tiny_or_big = c.p.spd; break;
          case 13: c.p.symm_pre_lvls = src.pick<int>({-2147483647, -1, 0, 1, 2147483647}); tiny_or_big = c.p.symm_pre_lvls; break;
          case 14: c.p.rrqr_cond = src.pick<double>({-1., 0., 0.5, 1., 1e300, inf, nan}); tiny_or_big = c.p.rrqr_cond; break;
          case 15: c.p.pivot = src.pick<int>({-1, 0, 1, 2, 3, 1000}); tiny_or_big = c.p.pivot; break;
          default: c.p.gamma = src.pick<double>({-1., 0., 1e-300, 1e300, inf, nan}); tiny_or_big = c.p.gamma;
        }
        ctx.desc << " option" << o << '=' << tiny_or_big;
        nontrivial = true;
      }
    }
    std::string why;
    bool t = thrown([&]() { h.factorize(A, c.p, c.m0); }, &why);
    ctx.label(t ? "rejected" : "completed");
    if (t) { usable(src, h, m, true, "a rejected factorization"); continue; }
    CHECK(!h.empty() && h.nrows() == n && h.ncols() == n, "sizes after a factorization");
    size_t rows = 0;
    for (auto &q : h.precs()) {
      CHECK(q.m <= q.n, "a leading block of size " << q.m << " of " << q.n);
      for (size_t i = 0; i < q.m; ++i) CHECK((size_t)q.p[i] < q.n && (size_t)q.q[i] < q.n, "a permutation exceeds the level");
      rows += q.m;
    }
    CHECK(h.rank() <= n && h.schur_rank() <= h.schur_size() && rows + h.schur_size() == n, "sizes of the levels do not add up: " << rows << " and " << h.schur_size() << " of " << n);
    hif::Array<V> b = rnd_vec(src, n), x(n);
    double be[2] = {1e-3, 10.};
    h.solve(b, x);
    h.solve(b, x, true);
    thrown([&]() { h.mmultiply(b, x); });
    h.hifir(A, b, 2, x);
    h.hifir(A, b, 4, be, x, src.chance(1, 2));
    m.ref.reset();
    H other;
    CHECK(!thrown([&]() { other.factorize(A, c.p, c.m0); }), "rejected by another object");
    m.ref.reset(new H());
    m.ref->factorize(A, c.p, c.m0);
    // results with infinities are compared as well
    usable(src, h, m, false, "a factorization with extreme values");
  }
  if (nontrivial) ctx.nontrivial();
}
