// P19: the C interface against the C++ library under histories of operations on matrix and preconditioner handles,
// including invalid handles, sizes and matrices.
#include "fact.hpp"
#include <iostream>
#include <libhifir.h>

namespace {
#define C_API(P, T, CT)                                                                                              \
  struct C_##P {                                                                                                     \
    typedef T               val;                                                                                     \
    typedef Lhf##P##MatrixHdl mat;                                                                                   \
    typedef Lhf##P##HifHdl    hdl;                                                                                   \
    static mat create_matrix(int rm, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) { return lhf##P##CreateMatrix(rm, n, p, i, (const CT *)v); } \
    static LhfStatus destroy_matrix(mat m) { return lhf##P##DestroyMatrix(m); }                                      \
    static size_t    size(mat m) { return lhf##P##GetMatrixSize(m); }                                                \
    static size_t    nnz(mat m) { return lhf##P##GetMatrixNnz(m); }                                                  \
    static LhfStatus wrap(mat m, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) { return lhf##P##WrapMatrix(m, n, p, i, (const CT *)v); } \
    static hdl       create(mat A, mat S, const double *p) { return lhf##P##Create(A, S, p); }                       \
    static LhfStatus destroy(hdl h) { return lhf##P##Destroy(h); }                                                   \
    static LhfStatus setup(hdl h, mat A, mat S, const double *p) { return lhf##P##Setup(h, A, S, p); }               \
    static LhfStatus update(hdl h, mat A) { return lhf##P##Update(h, A); }                                           \
    static LhfStatus refactorize(hdl h, mat S, const double *p) { return lhf##P##Refactorize(h, S, p); }             \
    static LhfStatus apply(hdl h, LhfOperationType op, const T *b, int nirs, const double *be, int r, T *x, int *st) { return lhf##P##Apply(h, op, (const CT *)b, nirs, be, r, (CT *)x, st); } \
    static LhfStatus solve(hdl h, const T *b, T *x) { return lhf##P##Solve(h, (const CT *)b, (CT *)x); }             \
    static LhfStatus stats(hdl h, size_t *s) { return lhf##P##GetStats(h, s); }                                      \
    static size_t    hnnz(hdl h) { return lhf##P##GetNnz(h); }                                                       \
    static size_t    levels(hdl h) { return lhf##P##GetLevels(h); }                                                  \
    static size_t    ssize(hdl h) { return lhf##P##GetSchurSize(h); }                                                \
    static size_t    srank(hdl h) { return lhf##P##GetSchurRank(h); }                                                \
  };
#if VT == 0
C_API(d, double, double)
typedef C_d C;
typedef C_d W;
#elif VT == 1
C_API(s, float, float)
C_API(d, double, double)
typedef C_s C;
typedef C_d W;
#elif VT == 2
C_API(z, std::complex<double>, double _Complex)
typedef C_z C;
typedef C_z W;
#else
C_API(c, std::complex<float>, float _Complex)
C_API(z, std::complex<double>, double _Complex)
typedef C_c C;
typedef C_z W;
#endif
// mixed precision: single precision objects with double precision vectors
struct Mixed {
#if VT == 1
  static LhfStatus update(C::hdl h, W::mat A) { return lhfsdUpdate(h, A); }
  static LhfStatus apply(C::hdl h, LhfOperationType op, const double *b, int nirs, const double *be, int r, double *x, int *st) { return lhfsdApply(h, op, b, nirs, be, r, x, st); }
  static LhfStatus solve(C::hdl h, const double *b, double *x) { return lhfsdSolve(h, b, x); }
#elif VT == 3
  typedef std::complex<double> D;
  static LhfStatus update(C::hdl h, W::mat A) { return lhfczUpdate(h, A); }
  static LhfStatus apply(C::hdl h, LhfOperationType op, const D *b, int nirs, const double *be, int r, D *x, int *st) { return lhfczApply(h, op, (const double _Complex *)b, nirs, be, r, (double _Complex *)x, st); }
  static LhfStatus solve(C::hdl h, const D *b, D *x) { return lhfczSolve(h, (const double _Complex *)b, (double _Complex *)x); }
#else
  static LhfStatus update(C::hdl h, W::mat A) { return C::update(h, A); }
  static LhfStatus apply(C::hdl h, LhfOperationType op, const V *b, int nirs, const double *be, int r, V *x, int *st) { return C::apply(h, op, b, nirs, be, r, x, st); }
  static LhfStatus solve(C::hdl h, const V *b, V *x) { return C::solve(h, b, x); }
#endif
};
typedef hif::HIF<V, LhfInt, LhfIndPtr> H;

// arrays owned by the user of the C interface
template <class K>
struct Data {
  typedef typename K::val T;
  size_t                 n = 0;
  bool                   row = true;
  bool                   bad = false;  // invalid structure
  int                    base = 0;
  std::vector<LhfIndPtr> p;
  std::vector<LhfInt>    i;
  std::vector<T>         v;
  Data(const Sp &A, bool rm, int b) : n(A.n), row(rm), base(b) {
    Sp t = rm ? A : A.T();
    p.push_back(b);
    for (auto &r : t.r) {
      for (auto &e : r) { i.push_back(e.first + b); v.push_back(Down<T>::f(e.second)); }
      p.push_back((LhfIndPtr)i.size() + b);
    }
    i.reserve(1);
    v.reserve(1);
  }
};
// a matrix handle and what it should hold
template <class K>
struct MH {
  typename K::mat h = nullptr;
  bool            row = true;
  Data<K> *       d = nullptr;
};
template <class K>
struct Pool {
  std::vector<std::unique_ptr<Data<K>>> data;
  std::vector<MH<K>>                    h;
  ~Pool() { for (auto &m : h) K::destroy_matrix(m.h); }
};
struct Cerr {
  std::stringstream t;
  std::streambuf *  o, *oo;
  Cerr() : o(std::cerr.rdbuf(t.rdbuf())), oo(std::cout.rdbuf(t.rdbuf())) {}
  ~Cerr() { std::cerr.rdbuf(o); std::cout.rdbuf(oo); }
};
inline std::string tail(const std::string &m) {  // message without the source position
  size_t k = m.find("message: "), e = m.find("\n\n");
  return m.substr(k == std::string::npos ? 0 : k, e == std::string::npos || (k != std::string::npos && e < k) ? std::string::npos : e - (k == std::string::npos ? 0 : k));
}
template <class K>
inline void factorize(H &r, const Data<K> *d, bool row, const hif::Params &p) {
  if (!d) throw std::runtime_error("message: cannot factorize a matrix handle without data");
  const LhfIndPtr *ip = d->p.data();
  const LhfInt *   ii = d->i.data();
  const V *        vv = d->v.data();
  size_t           n  = d->n;
  if (row) r.template factorize<true>(n, ip, ii, vv, p);
  else r.template factorize<false>(n, ip, ii, vv, p);
}
// the C++ operation behind Apply
template <class K>
inline void apply(H &r, const MH<K> *A, LhfOperationType op, const std::vector<typename K::val> &b, int nirs, const double *be, int rank, std::vector<typename K::val> &x, int *st) {
  typedef typename K::val T;
  hif::Array<T>           bb(b.size(), (T *)b.data(), true), xx(x.size(), x.data(), true);
  bool                    tr = op == LHF_SH || op == LHF_MH;
  if (op == LHF_M || op == LHF_MH) {
    if (rank == LHF_DEFAULT_RANK) r.mmultiply(bb, xx, tr);
    else r.mmultiply(bb, xx, tr, (size_t)rank);
  } else if (nirs <= 1) {
    if (rank == LHF_DEFAULT_RANK) r.solve(bb, xx, tr);
    else r.solve(bb, xx, tr, (size_t)rank);
  } else {
    const Data<K> &d = *A->d;
    size_t         k = rank == LHF_DEFAULT_RANK ? (size_t)-1 : (size_t)rank;
    std::pair<size_t, int> info(0, 0);
    if (A->row) {
      auto AA = hif::wrap_const_crs(d.n, d.n, d.p.data(), d.i.data(), d.v.data(), false);
      if (be) info = r.hifir(AA, bb, nirs, be, xx, tr, k);
      else r.hifir(AA, bb, nirs, xx, tr, k);
    } else {
      auto AA = hif::wrap_const_ccs(d.n, d.n, d.p.data(), d.i.data(), d.v.data(), false);
      if (be) info = r.hifir(AA, bb, nirs, be, xx, tr, k);
      else r.hifir(AA, bb, nirs, xx, tr, k);
    }
    if (be && st) { st[0] = (int)info.first; st[1] = info.second; }
  }
}
inline void params(Src &s, std::vector<double> &a, hif::Params &o) {
  hif::Params q = gen_params(s, s.chance(1, 2));
  o             = hif::get_default_params();
  a.assign(LHF_NUMBER_PARAMS, 0.);
#define P_(pos, f) a[pos] = q.f, o.f = q.f
  P_(LHF_DROPTOL_L, tau_L); P_(LHF_DROPTOL_U, tau_U); P_(LHF_COND_D, kappa_d); P_(LHF_COND, kappa);
  P_(LHF_ALPHA_L, alpha_L); P_(LHF_ALPHA_U, alpha_U); P_(LHF_REORDER, reorder); P_(LHF_SYMMPRELVLS, symm_pre_lvls);
  P_(LHF_RRQR_COND, rrqr_cond); P_(LHF_PIVOT, pivot); P_(LHF_BETA, beta); P_(LHF_NOPRE, no_pre);
  P_(LHF_NZP_THRES, nzp_thres); P_(LHF_DENSE_THRES, dense_thres);
#undef P_
  if (s.chance(1, 2)) o.dense_thres = (int)(a[LHF_DENSE_THRES] = (double)s.below(6));
  if (s.chance(1, 4)) o.rrqr_cond = a[LHF_RRQR_COND] = s.pick({1e3, 1.5, 10.});
  o.threads = (int)(a[LHF_THREADS] = (double)s.below(3));
  o.verbose = (int)(a[LHF_VERBOSE] = (double)s.below(2));
}
template <class T>
inline bool samev(const std::vector<T> &a, const std::vector<T> &b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i]) && !biteq(a[i], b[i])) {
      if (!(a[i] == a[i]) && !(b[i] == b[i])) continue;
      return false;
    }
  return true;
}
template <class K>
inline void add_data(Src &s, Pool<K> &P, size_t n, bool symm, bool may_fail) {
  Sp A;
  do A = gen_square(s, n).A; while (false);
  if (symm && !IS_CPLX) A = hermitize(A);
  int base = may_fail && s.chance(1, 4);
  std::unique_ptr<Data<K>> d(new Data<K>(A, s.chance(1, 2), base));
  if (may_fail && s.chance(1, 5)) {
    int what = s.below(3);
    if (what == 0 && d->i.size()) { d->i[s.below(d->i.size())] = (LhfInt)s.pick<long>({-7, 1000, (long)d->n + base}); d->bad = true; }
    else if (what == 1) {  // no entries in some row
      Sp B = A;
      B.r[s.below(B.m)].clear();
      d.reset(new Data<K>(B, d->row, base));
    } else {
      Sp B(A.m, A.n);
      d.reset(new Data<K>(B, d->row, base));
    }
  }
  P.data.push_back(std::move(d));
}
}  // namespace

#if LIBHIFIR_INT_SIZE == 64
PBT_PROP(history64, 8000, 120000)
#else
PBT_PROP(history, 8000, 120000)
#endif
{
  Src &   s = src;
  Pool<C> P;
  Pool<W> PW;
  size_t  nm  = 2 + s.below(3);
  size_t  dim = 2 + s.below(14);
  // problems, mostly of the same size
  for (size_t k = 0; k < nm; ++k) add_data(s, P, dim, s.chance(1, 4), k > 0 && s.chance(1, 2));
  bool mixed = !std::is_same<C, W>::value;
  if (mixed) for (size_t k = 0; k < 2; ++k) add_data(s, PW, dim, false, false);
  auto hdl = [&](auto &PP) {
    typedef typename std::decay<decltype(*PP.data[0])>::type D;
    auto &d = *PP.data[s.below(PP.data.size())];
    typename std::decay<decltype(PP.h[0])>::type m;
    typedef typename std::conditional<std::is_same<D, Data<C>>::value, C, W>::type K;
    m.row = d.row;
    m.d   = &d;
    int how = s.below(6);
    if (how == 0) {  // without data first
      m.h = K::create_matrix(d.row, d.n * s.below(2), nullptr, s.chance(1, 2) ? d.i.data() : nullptr, nullptr);
      m.d = nullptr;
      CHECK(m.h && K::size(m.h) == 0 && K::nnz(m.h) == 0, "a matrix handle without data has size " << K::size(m.h) << " and " << K::nnz(m.h) << " entries");
    } else {
      m.h = K::create_matrix(d.row ? 1 + s.below(3) : 0, d.n, d.p.data(), d.i.data(), d.v.data());
      CHECK(m.h && K::size(m.h) == d.n && K::nnz(m.h) == d.v.size(), "a matrix handle has size " << K::size(m.h) << " and " << K::nnz(m.h) << " entries instead of " << d.n << " and " << d.v.size());
    }
    PP.h.push_back(m);
  };
  for (size_t k = 0; k < 3; ++k) hdl(P);
  if (mixed) for (size_t k = 0; k < 2; ++k) hdl(PW);
  H        ref;
  C::hdl   h = nullptr;
  MH<C> *  A = nullptr;  // operator of refinements
  MH<W> *  AW = nullptr;
  std::string pending;  // expected error message
  bool     warn = s.chance(1, 3);
  if (warn) lhfEnableWarning();
  else lhfDisableWarning();
  lhfGetErrorMsg();
  lhfGetErrorMsg();
  size_t nops = 4 + s.below(14), good = 0, rejected = 0;
  auto pick = [&](auto &PP) { return s.chance(1, 8) ? nullptr : &PP.h[s.below(PP.h.size())]; };
  auto hd   = [](auto *m) { return m ? m->h : nullptr; };
  // runs the C++ operation; the status which the C function should return
  auto run = [&](const std::function<void()> &f) -> LhfStatus {
    try { f(); } catch (const std::exception &e) { pending = e.what(); return LHF_HIFIR_ERROR; }
    return LHF_SUCCESS;
  };
  P.h.reserve(64);
  PW.h.reserve(64);
  auto setup = [&](int via) {  // 0 create, 1 setup, 2 refactorize
    MH<C> *             a = pick(P), *f = via == 2 ? pick(P) : s.chance(1, 2) ? nullptr : pick(P);
    std::vector<double> pa;
    hif::Params         o = hif::get_default_params();
    bool                dflt = s.chance(1, 6);
    if (!dflt) params(s, pa, o);
    if (!warn) o.verbose = 0;
    MH<C> *fac = via == 2 ? f : f ? f : a;
    ctx.desc << (via == 0 ? " create" : via == 1 ? " setup" : " refac") << (fac ? fac->d ? fac->d->bad ? "(bad)" : "" : "(empty)" : "(null)");
    LhfStatus   es = LHF_NULL_OBJ;
    std::string eo, go;
    if (via == 1 && h == nullptr) fac = nullptr;
    if (via == 0) { ref = H(); }
    if (fac) {
      Cerr c;
      es = run([&]() { factorize(ref, fac->d, fac->row, o); });
      eo = c.t.str();
    }
    if (!fac && via == 0) es = LHF_NULL_OBJ;
    LhfStatus gs = es;
    {
      Cerr c;
      const double *pp = dflt ? nullptr : pa.data();
      if (via == 0) {
        h = C::create(hd(a), hd(f), pp);
        CHECK((h == nullptr) == (es == LHF_HIFIR_ERROR), "creation " << (h ? "succeeded" : "failed") << " while the library " << (es == LHF_HIFIR_ERROR ? "failed with " + pending : "succeeded"));
      } else if (via == 1) gs = C::setup(h, hd(a), hd(f), pp);
      else gs = C::refactorize(h, hd(f), pp);
      go = c.t.str();
    }
    CHECK(gs == es, "status " << gs << " instead of " << es << " (" << pending << ")");
    CHECK(go == eo, "printed '" << go << "' instead of '" << eo << "'");
    if (!warn) CHECK(go.empty(), "warnings were turned off, but printed: " << go);
    if (via < 2 && h) { A = a ? a : f; AW = nullptr; }
    if (es == LHF_SUCCESS) ++good;
    else ++rejected;
  };
  auto app = [&](auto *B, auto tag, bool mix) {
    typedef decltype(tag) K;
    typedef typename K::val T;
    if (!h) {
      T t(1);
      CHECK((mix ? Mixed::apply((C::hdl) nullptr, LHF_S, (const typename W::val *)&t, 1, nullptr, 0, (typename W::val *)&t, nullptr) : LHF_NULL_OBJ) == LHF_NULL_OBJ, "status of applying a null handle");
      return;
    }
    size_t n = ref.nrows();
    LhfOperationType op = (LhfOperationType)s.below(4);
    int    nirs = (int)s.pick({0, 1, 2, 3, 5, -1});
    int    rank = s.chance(1, 2) ? LHF_DEFAULT_RANK : s.chance(1, 4) ? -1 : (int)s.below(n + 2);
    double be[2] = {s.pick({1e-3, 1e-8, 0.5, 0.}), s.pick({1e3, 10., 1e10, 1.})};
    bool   wb = s.chance(1, 2), ws = s.chance(2, 3);
    std::vector<T> b(n + 2), x(n + 2, T(77)), y(n);
    for (auto &v : b) v = Down<T>::f(gen_val(s));
    b[n] = b[n + 1] = T(5);
    std::vector<T> b0 = b;
    int st[3] = {-9, -9, -9}, rs[2] = {-9, -9};
    ctx.desc << (mix ? " mapply" : " apply") << op << ',' << nirs << ',' << rank << (wb ? 'b' : '-');
    bool      ir = nirs > 1 && (op == LHF_S || op == LHF_SH);
    LhfStatus es = LHF_SUCCESS;
    if (ir && !B) es = LHF_NULL_OBJ;
    else if (ir && (B->d ? B->d->n : 0) != n) es = LHF_MISMATCHED_SIZES;
    else if (ir && (!B->d || B->d->bad || B->d->base)) return;  // no valid operator of refinements
    else es = run([&]() { std::vector<T> bn(b.begin(), b.begin() + n); apply<K>(ref, B, op, bn, nirs, wb ? be : nullptr, rank, y, rs); });
    LhfStatus gs;
    const double *bp = wb ? be : nullptr;
    int *sp = ws ? st : nullptr;
    if (mix) gs = Mixed::apply(h, op, (const typename W::val *)b.data(), nirs, bp, rank, (typename W::val *)x.data(), sp);
    else gs = C::apply(h, op, (const V *)b.data(), nirs, bp, rank, (V *)x.data(), sp);
    CHECK(gs == es, "operation " << op << " with " << nirs << " refinements returned status " << gs << " instead of " << es);
    CHECK(samev(b, b0) && x[n] == T(77) && x[n + 1] == T(77), "the right-hand side or entries past the solution were changed");
    if (es == LHF_SUCCESS) {
      x.resize(n);
      CHECK(samev(x, y), "operation " << op << " with " << nirs << " refinements and rank " << rank << " differs from the library");
      if (ir && wb && ws) CHECK(st[0] == rs[0] && st[1] == rs[1], "refinement status (" << st[0] << "," << st[1] << ") instead of (" << rs[0] << "," << rs[1] << ")");
      else CHECK(st[0] == -9 && st[1] == -9, "refinement status was written");
      CHECK(st[2] == -9, "refinement status was overrun");
      ++good;
    } else ++rejected;
  };
  setup(0);
  for (size_t k = 0; k < nops; ++k) {
    switch (s.below(12)) {
      case 0: setup(1); break;
      case 1: if (h || s.chance(1, 2)) { if (h) setup(2); else CHECK(C::refactorize(nullptr, hd(pick(P)), nullptr) == LHF_NULL_OBJ, "status of a null handle"); } break;
      case 2: {
        MH<C> *a = pick(P);
        ctx.desc << " update";
        LhfStatus es = !h ? LHF_NULL_OBJ : a && !ref.empty() && (a->d ? a->d->n : 0) != ref.nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
        CHECK(C::update(h, hd(a)) == es, "status of updating the operator, expected " << es);
        if (h) A = a;
        break;
      }
      case 3:
        if (mixed) {
          MH<W> *a = pick(PW);
          ctx.desc << " mupdate";
          LhfStatus es = !h ? LHF_NULL_OBJ : a && !ref.empty() && (a->d ? a->d->n : 0) != ref.nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
          CHECK(Mixed::update(h, hd(a)) == es, "status of updating the wide operator, expected " << es);
          if (h) AW = a;
        }
        break;
      case 4: case 5: case 6: app(A, C(), false); break;
      case 7: if (mixed) app(AW, W(), true); else app(A, C(), false); break;
      case 8: {  // plain solves
        ctx.desc << " solve";
        V one(1);
        if (!h) { CHECK(C::solve(h, &one, &one) == LHF_NULL_OBJ, "status of a null handle"); break; }
        size_t n = ref.nrows();
        bool   mx = mixed && s.chance(1, 2);
        auto   go = [&](auto tag) {
          typedef decltype(tag) T;
          std::vector<T> b(n), x(n + 1, T(77)), y(n);
          for (auto &v : b) v = Down<T>::f(gen_val(s));
          LhfStatus es = run([&]() { hif::Array<T> bb(n, b.data(), true), yy(n, y.data(), true); ref.solve(bb, yy); });
          LhfStatus gs = mx ? Mixed::solve(h, (const W::val *)b.data(), (W::val *)x.data()) : C::solve(h, (const V *)b.data(), (V *)x.data());
          CHECK(gs == es && x[n] == T(77), "status " << gs << " of a solve instead of " << es);
          x.resize(n);
          if (es == LHF_SUCCESS) { CHECK(samev(x, y), "solution differs from the library's"); ++good; }
        };
        if (mx) go(W::val()); else go(V());
        break;
      }
      case 9: {  // matrix handles
        MH<C> &m = P.h[s.below(P.h.size())];
        ctx.desc << " wrap";
        auto & d = *P.data[s.below(P.data.size())];
        if (d.row != m.row || s.chance(1, 3)) {  // invalid arguments change nothing
          int w = s.below(5);
          LhfStatus g = w == 4 ? C::wrap(nullptr, d.n, d.p.data(), d.i.data(), d.v.data())
                               : C::wrap(m.h, w == 0 ? 0 : d.n, w == 1 ? nullptr : d.p.data(), w == 2 ? nullptr : d.i.data(), w == 3 ? nullptr : d.v.data());
          CHECK(g == LHF_NULL_OBJ, "wrapping null arguments returned status " << g);
        } else {
          CHECK(C::wrap(m.h, d.n, d.p.data(), d.i.data(), d.v.data()) == LHF_SUCCESS, "wrapping failed");
          m.d = &d;
        }
        CHECK(C::size(m.h) == (m.d ? m.d->n : 0) && C::nnz(m.h) == (m.d ? m.d->v.size() : 0), "size " << C::size(m.h) << " or number of entries " << C::nnz(m.h) << " of a matrix handle");
        break;
      }
      case 10: {  // the user changes values in place
        auto &d = *P.data[s.below(P.data.size())];
        if (d.v.size()) { ctx.desc << " edit"; d.v[s.below(d.v.size())] *= V(1.5); }
        break;
      }
      default: {  // error messages are given once
        const char *m = lhfGetErrorMsg();
        ctx.desc << " msg";
        CHECK((m != nullptr) == !pending.empty(), (m ? "an error message without a failure" : "no error message after a failure: " + pending));
        if (m) CHECK(tail(m) == tail(pending), "error message '" << tail(m) << "' instead of '" << tail(pending) << "'");
        pending.clear();
      }
    }
    // statistics after every operation
    size_t st[10];
    for (auto &v : st) v = 4242;
    CHECK(C::stats(h, st) == LHF_SUCCESS && st[9] == 4242, "statistics");
    size_t es[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
    if (h && !ref.empty()) {
      size_t t[9] = {ref.nnz(), ref.stats(0), ref.stats(1), ref.stats(4), ref.stats(5), ref.levels(), ref.rank(), ref.schur_rank(), ref.schur_size()};
      std::copy(t, t + 9, es);
    }
    for (int q = 0; q < 9; ++q) CHECK(st[q] == es[q], "statistic " << q << " is " << st[q] << " instead of " << es[q]);
    CHECK(C::hnnz(h) == es[0] && C::levels(h) == es[5], "number of entries " << C::hnnz(h) << " or levels " << C::levels(h));
    if (!h || !ref.empty()) CHECK(C::srank(h) == es[7] && C::ssize(h) == es[8], "Schur complement rank " << C::srank(h) << " or size " << C::ssize(h) << " instead of " << es[7] << " and " << es[8]);
  }
  CHECK(C::size(nullptr) == 0 && C::nnz(nullptr) == 0 && C::destroy_matrix(nullptr) == LHF_SUCCESS && C::destroy(nullptr) == LHF_SUCCESS, "null handles");
  CHECK(C::destroy(h) == LHF_SUCCESS, "destruction");
  if (good >= 3) ctx.nontrivial();
  if (rejected) ctx.label("rejections");
  if (mixed && AW) ctx.label("mixed");
}

// every entry of the parameter array reaches the factorization
#if LIBHIFIR_INT_SIZE == 64
PBT_PROP(params64, 250, 5000)
#else
PBT_PROP(params, 250, 5000)
#endif
{
  Src &  s = src;
  size_t n = s.chance(1, 4) ? 20 + s.below(40) : 150 + s.below(250);
  bool   symm = !IS_CPLX && s.chance(1, 3);
  // sparse with weak diagonals, so that many rows are deferred
  Sp     A(n, n);
  size_t per = 2 + s.below(4);
  double dd  = s.pick({0.3, 1.0, 0.05, 0.5});
  for (size_t i = 0; i < n; ++i) {
    A.set(i, i, Down<V>::f(up(gen_val(s)) * X(dd) + X(dd)));
    for (size_t k = 0; k < per; ++k) A.set(i, s.below(n), gen_val(s));
    if (i) A.set(i, i - 1, V(1));
  }
  if (symm) A = hermitize(A);
  Data<C> d(A, s.chance(1, 2), 0);
  std::vector<double> pa;
  hif::Params         o;
  params(s, pa, o);
  o.verbose = 0, pa[LHF_VERBOSE] = 0;
  if (symm) o.is_symm = (int)(pa[LHF_ISSYMM] = 1);
  // small thresholds bring out the others
  if (s.chance(3, 4)) o.alpha_L = pa[LHF_ALPHA_L] = s.pick({1.0, 0.7, 2.0, 3.0});
  if (s.chance(3, 4)) o.alpha_U = pa[LHF_ALPHA_U] = s.pick({1.0, 0.7, 2.0, 3.0});
  if (s.chance(3, 4)) o.kappa = pa[LHF_COND] = s.pick({1.2, 1.5, 2.0}), o.kappa_d = pa[LHF_COND_D] = s.pick({1.2, 1.5, 2.0});
  o.dense_thres = (int)(pa[LHF_DENSE_THRES] = s.pick({1., 5., 40., 80., 120., 2000.}));
  ctx.desc << "n=" << n << " per=" << per << " dd=" << dd << " symm=" << symm << " row=" << d.row;
  for (double v : pa) ctx.desc << ' ' << v;
  H           ref;
  std::string err;
  try { factorize(ref, &d, d.row, o); } catch (const std::exception &e) { err = e.what(); }
  C::mat m = C::create_matrix(d.row, n, d.p.data(), d.i.data(), d.v.data());
  C::hdl h = C::create(nullptr, m, pa.data());
  CHECK((h == nullptr) == !err.empty(), "creation " << (h ? "succeeded" : "failed") << " while the library " << (err.empty() ? "succeeded" : "failed with " + err));
  if (!h) { C::destroy_matrix(m); lhfGetErrorMsg(); ctx.label("failed"); return; }
  size_t st[9], es[9] = {ref.nnz(), ref.stats(0), ref.stats(1), ref.stats(4), ref.stats(5), ref.levels(), ref.rank(), ref.schur_rank(), ref.schur_size()};
  C::stats(h, st);
  for (int q = 0; q < 9; ++q) CHECK(st[q] == es[q], "statistic " << q << " is " << st[q] << " instead of " << es[q]);
  hif::Array<V> b(n), y(n);
  std::vector<V> x(n);
  for (auto &v : b) v = gen_val(s);
  ref.solve(b, y);
  CHECK(C::solve(h, b.data(), x.data()) == LHF_SUCCESS, "status of a solve");
  CHECK(samev(x, std::vector<V>(y.begin(), y.end())), "solution differs from the library's");
  C::destroy(h);
  C::destroy_matrix(m);
  ctx.label("levels=" + std::to_string(ref.levels()));
  if (ref.levels() > 2) ctx.nontrivial();
}
