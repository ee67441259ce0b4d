// P07: equivalent representations of one matrix give the same preconditioner.
#include "fact.hpp"
#include <cstdint>
namespace {
#if VT == 0
typedef double W;              // wide type
typedef float  N_;             // narrow type
#elif VT == 1
typedef double W;
typedef float  N_;
#elif VT == 2
typedef std::complex<double> W;
typedef std::complex<float>  N_;
#else
typedef std::complex<double> W;
typedef std::complex<float>  N_;
#endif
struct Obs {
  bool              threw = false;
  std::vector<V>    x;
  std::vector<long> st;
};
template <class M>
inline void observe(const M &h, const std::vector<V> &bb, size_t r, Obs &o) {
  size_t n = bb.size();
  o.st     = {(long)h.levels(), (long)h.nnz(), (long)h.nnz_ef(), (long)h.rank(), (long)h.schur_rank(), (long)h.schur_size(), (long)h.nrows(), (long)h.ncols()};
  for (int k = 0; k < 6; ++k) o.st.push_back((long)h.stats(k));
  for (int op = 0; op < 4; ++op) {
    hif::Array<V> b(n), x(n);
    for (size_t i = 0; i < n; ++i) b[i] = bb[i], x[i] = V(0);
    op < 2 ? h.solve(b, x, op & 1, r) : h.mmultiply(b, x, op & 1, r);
    for (auto &v : x) o.x.push_back(v);
  }
}
template <class H, class F>
inline Obs run(F f, const std::vector<V> &b, size_t r) {
  Obs o;
  H   h;
  try { f(h); } catch (const std::exception &) { o.threw = true; return o; }
  observe(h, b, r, o);
  return o;
}
inline std::string diff(const Obs &a, const Obs &b) {
  std::ostringstream os;
  if (a.threw != b.threw) { os << (a.threw ? "rejected" : "accepted") << " but the row-compressed form is " << (b.threw ? "rejected" : "accepted"); return os.str(); }
  if (a.st != b.st) { os << "statistics differ:"; for (auto v : a.st) os << " " << v; os << " /"; for (auto v : b.st) os << " " << v; return os.str(); }
  for (size_t i = 0; i < a.x.size(); ++i)
    if (!biteq(a.x[i], b.x[i])) { os << "result " << i << ": " << a.x[i] << " vs " << b.x[i]; return os.str(); }
  return "";
}
template <class P, class I, class VV>
struct Raw {
  std::vector<P>  p;
  std::vector<I>  i;
  std::vector<VV> v;
};
template <class P, class I, class VV = V>
inline Raw<P, I, VV> raw(const Sp &g, bool rows, int base) {
  Raw<P, I, VV> r;
  Sp            a = rows ? g : g.T();
  r.p.push_back(base);
  for (auto &row : a.r) {
    for (auto &e : row) r.i.push_back(e.first + base), r.v.push_back(VV(e.second));
    r.p.push_back(r.i.size() + base);
  }
  return r;
}
}  // namespace
PBT_PROP(storage, 2500, 60000) {
  FactCase c = gen_fact(src, ctx, 24, src.chance(1, 3));
  c.via      = 0;
  if (src.chance(1, 6)) {
    size_t a = src.below(c.g.n), b = src.below(c.g.n);
    if (a != b && !c.p.is_symm && !c.m0) c.g.r[a] = c.g.r[b], ctx.label("singular");
  }
  size_t         n = c.g.n;
  std::vector<V> b;
  for (auto &v : gen_vec_x(src, n)) b.push_back(Down<V>::f(v));
  size_t         r  = src.chance(1, 4) ? 1 + src.below(3) : 0;
  typedef hif::HIF<V> H;
  Obs base = run<H>([&](H &h) { auto A = c.g.crs<>(); h.factorize(A, c.p, c.m0); }, b, r);
  auto same = [&](const char *what, const Obs &o) {
    std::string d = diff(o, base);
    CHECK(d.empty(), what << ": " << d);
  };
  same("1-based row storage", run<H>([&](H &h) { auto A = c.g.crs<>(1); h.factorize(A, c.p, c.m0); }, b, r));
  {
    auto w = raw<std::ptrdiff_t, int>(c.g, true, src.below(2));
    same("raw row arrays", run<H>([&](H &h) { h.template factorize<true>(n, w.p.data(), w.i.data(), w.v.data(), c.p, c.m0); }, b, r));
    auto w0 = raw<std::ptrdiff_t, int>(c.g, true, 0);
    same("wrapped row arrays", run<H>([&](H &h) {
           auto A = hif::CRS<V, int, std::ptrdiff_t>(n, n, w0.p.data(), w0.i.data(), w0.v.data(), true);
           h.factorize(A, c.p, c.m0);
         }, b, r));
  }
  {
    auto w = raw<int, int>(c.g, true, src.below(2));
    same("raw row arrays with 32-bit pointers", run<H>([&](H &h) { h.template factorize<true>(n, w.p.data(), w.i.data(), w.v.data(), c.p, c.m0); }, b, r));
    typedef hif::HIF<V, int, int> H2;
    same("32-bit index pointers", run<H2>([&](H2 &h) { h.template factorize<true>(n, w.p.data(), w.i.data(), w.v.data(), c.p, c.m0); }, b, r));
  }
  {
    typedef hif::HIF<V, std::int64_t, std::ptrdiff_t> H3;
    int                                               bs = src.below(2);
    same("64-bit indices", run<H3>([&](H3 &h) { auto A = c.g.crs<std::int64_t, std::ptrdiff_t>(bs); h.factorize(A, c.p, c.m0); }, b, r));
  }
  {
    int bs = src.below(2);
    Obs cc = run<H>([&](H &h) { auto A = c.g.ccs<>(bs); h.factorize(A, c.p, c.m0); }, b, r);
    if (diff(cc, base).empty()) ctx.label("column storage bit-identical");
    else {  // same numbers up to rounding; a rounding difference may change what is dropped
      ctx.label("column storage rounds differently");
      CHECK(cc.threw == base.threw, "column storage " << (cc.threw ? "rejected" : "accepted") << " unlike row storage");
      bool alike = !cc.threw && cc.st == base.st && base.st[12] == 0 && c.p.tau_L == 0 && c.p.tau_U == 0;
      if (!cc.threw && alike && cc.st[4] == cc.st[5]) {
        H    h;
        auto A = c.g.crs<>();
        h.factorize(A, c.p, c.m0);
        Vec xb(n);
        for (size_t i = 0; i < n; ++i) xb[i] = up(b[i]);
        for (int tr = 0; tr < 2; ++tr) {
          RefOp f = ref_inverse(h.precs().cbegin(), r, tr), w = ref_forward(h.precs().cbegin(), r, tr);
          Mat   B = f.bnd * w.bnd * f.bnd;
          LR    worst = 0;
          for (size_t i = 0; i < n; ++i) {
            LR t = 0;
            for (size_t j = 0; j < n; ++j) t += std::abs(B(i, j)) * std::abs(xb[j]);
            LR d = std::abs(up(cc.x[tr * n + i]) - up(base.x[tr * n + i]));
            if (!(d <= 1e4000L) || !(t <= 1e4000L)) { t = 1, d = 0; ctx.label("overflow"); }
            if (t * EPS * (IS_SINGLE ? 2000 : 1e6L) > std::abs(up(base.x[tr * n + i]))) ctx.label("illcond");
            worst = std::max(worst, d / std::max(t * EPS, (LR)std::numeric_limits<R>::min()));
          }
          if (r == 0) CHECK(worst <= (IS_SINGLE ? 2000 : 1e6L), "column storage differs from row storage by " << (double)worst << " eps*bound");
        }
      }
    }
    auto w = raw<std::ptrdiff_t, int>(c.g, false, src.below(2));
    {
      std::string d = diff(run<H>([&](H &h) { h.template factorize<false>(n, w.p.data(), w.i.data(), w.v.data(), c.p, c.m0); }, b, r), cc);
      CHECK(d.empty(), "raw column arrays against column storage: " << d);
    }
  }
  ctx.nontrivial(n >= 3 && c.g.nnz() > n && !base.threw);
}
// the value type of the matrix differs from the one of the preconditioner
PBT_PROP(precision, 2500, 60000) {
  FactCase c = gen_fact(src, ctx, 24, src.chance(1, 3));
  size_t   n = c.g.n;
  typedef hif::HIF<V> H;
  std::vector<V>      b;
  for (auto &v : gen_vec_x(src, n)) b.push_back(Down<V>::f(v));
  typedef typename std::conditional<IS_SINGLE, W, N_>::type O;  // the other precision
  // values of the other precision: wider ones carry digits which rounding removes
  Sp rounded = c.g;
  std::vector<std::vector<O>> ov(n);
  for (size_t i = 0; i < n; ++i)
    for (auto &e : rounded.r[i]) {
      X v = up(e.second);
      if (IS_SINGLE && src.chance(1, 2) && !c.p.is_symm && !c.m0) v *= X(1 + 1e-10L * (LR)(1 + src.below(1000)));
      O o      = Down<O>::f(v);
      ov[i].push_back(o);
      e.second = Down<V>::f(up(o));
    }
  auto fill = [&](auto &A, bool rows) {
    A.ind_start().resize(n + 1);
    A.ind_start()[0] = 0;
    if (rows)
      for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < ov[i].size(); ++k) A.inds().push_back(rounded.r[i][k].first), A.vals().push_back(ov[i][k]);
        A.ind_start()[i + 1] = A.inds().size();
      }
    else
      for (size_t j = 0; j < n; ++j) {
        for (size_t i = 0; i < n; ++i)
          for (size_t k = 0; k < ov[i].size(); ++k)
            if (rounded.r[i][k].first == (int)j) A.inds().push_back(i), A.vals().push_back(ov[i][k]);
        A.ind_start()[j + 1] = A.inds().size();
      }
  };
  FactCase rc = c;
  rc.g        = rounded;
  Obs base    = run<H>([&](H &h) { do_factorize(h, rc); }, b, 0);
  Obs mixed   = run<H>([&](H &h) {
    if (c.via) { hif::CCS<O, int, std::ptrdiff_t> A(n, n); fill(A, false); h.factorize(A, c.p, c.m0); }
    else { hif::CRS<O, int, std::ptrdiff_t> A(n, n); fill(A, true); h.factorize(A, c.p, c.m0); }
  }, b, 0);
  std::string d = diff(mixed, base);
  CHECK(d.empty(), "a matrix of another precision: " << d);
  ctx.nontrivial(n >= 3 && c.g.nnz() > n && !base.threw);
  if (base.threw) return;
  // vectors of another precision
  H h;
  do_factorize(h, rc);
  for (int tr = 0; tr < 2; ++tr) {
    RefOp         f = ref_inverse(h.precs().cbegin(), 0, tr);
    hif::Array<O> ob(n), ox(n);
    Vec           xb(n);
    for (size_t i = 0; i < n; ++i) ob[i] = Down<O>::f(up(b[i])), ox[i] = O(1), xb[i] = up(ob[i]);
    h.solve(ob, ox, tr);
    Vec  ref = f.val * xb;
    LR   eps = std::numeric_limits<float>::epsilon(), w = 0;
    bool fin = true;
    for (size_t i = 0; i < n; ++i) {
      LR s = 0;
      for (size_t j = 0; j < n; ++j) s += std::abs(f.bnd(i, j)) * std::abs(xb[j]);
      if (!finite_(up(ox[i])) || !(s < 1e30L)) { fin = false; break; }
      w = std::max(w, (LR)std::abs(up(ox[i]) - ref[i]) / std::max(eps * s, (LR)std::numeric_limits<float>::min()));
    }
    if (!fin) { ctx.label("overflow"); continue; }
    CHECK(w <= 2000, "solving with vectors of another precision is off by " << (double)w << " eps*bound" << (tr ? " (transposed)" : ""));
    ctx.label("mixed vectors");
  }
}
// a real matrix, of any precision, given to a real or complex preconditioner
template <class S_, class F>
inline Obs real_run(const FactCase &c, bool rows, bool rawp, int base, F val, const std::vector<V> &b) {
  typedef hif::HIF<V> H;
  size_t              n = c.g.n;
  std::vector<std::ptrdiff_t> ptr(1, base);
  std::vector<int>            ind;
  std::vector<S_>             v;
  Sp                          a = rows ? c.g : c.g.T();
  for (auto &row : a.r) {
    for (auto &e : row) ind.push_back(e.first + base), v.push_back(val(e.second));
    ptr.push_back(ind.size() + base);
  }
  return run<H>([&](H &h) {
    auto build = [&](auto &A) {
      A.ind_start().resize(n + 1), A.inds().resize(ind.size()), A.vals().resize(v.size());
      std::copy(ptr.begin(), ptr.end(), A.ind_start().begin());
      std::copy(ind.begin(), ind.end(), A.inds().begin());
      std::copy(v.begin(), v.end(), A.vals().begin());
      h.factorize(A, c.p, c.m0);
    };
    if (rawp) rows ? h.template factorize<true>(n, ptr.data(), ind.data(), v.data(), c.p, c.m0) : h.template factorize<false>(n, ptr.data(), ind.data(), v.data(), c.p, c.m0);
    else if (rows) { hif::CRS<S_, int, std::ptrdiff_t> A(n, n); build(A); }
    else { hif::CCS<S_, int, std::ptrdiff_t> A(n, n); build(A); }
  }, b, 0);
}
PBT_PROP(realmatrix, 1500, 30000) {
  FactCase c = gen_fact(src, ctx, 20, src.chance(1, 3));
  size_t   n = c.g.n;
  typedef hif::HIF<V> H;
  std::vector<V>      b;
  for (auto &v : gen_vec_x(src, n)) b.push_back(Down<V>::f(v));
  for (auto &row : c.g.r)
    for (auto &e : row) e.second = V((R)(float)std::real(e.second));  // exact in all precisions
  c.via     = src.below(2);
  bool rawp = src.chance(1, 2);
  int  one  = src.below(2), wide = src.below(2);
  Obs  base = run<H>([&](H &h) { do_factorize(h, c); }, b, 0);
  Obs  real;
  auto re = [](const V &v) { return std::real(v); };
  if (wide == 0) real = real_run<float>(c, !c.via, rawp, one, re, b);
  else real = real_run<double>(c, !c.via, rawp, one, re, b);
  std::string d = diff(real, base);
  CHECK(d.empty(), "a real matrix of another type: " << d << " (type " << wide << (c.via ? ", columns" : ", rows") << (rawp ? ", raw" : "") << ", base " << one << ")");
  ctx.nontrivial(n >= 3 && !base.threw);
}
