// P09: null-space filters remove the declared component from every solve and from nothing else.
#include "refine.hpp"
namespace {
typedef hif::HIF<V> H;
const size_t        NPOS = size_t(-1);
// which component a filter removes
struct Model {
  int    kind = 0;  // 0 none, 1 constant range, 2 callback, 3 subclass
  size_t a = 0, b = NPOS;
  Vec    w;  // removed vector of kinds 2 and 3
  bool   bad(size_t n) const { return kind == 1 && !(b == NPOS || b < a) && (b > n) ? true : kind == 1 && (b == NPOS || b < a) && a > n; }
  Mat    proj(size_t n) const {
    Mat F = Mat::eye(n);
    if (kind == 1) {
      size_t e = (b == NPOS || b < a) ? n : b;
      for (size_t i = a; i < e; ++i)
        for (size_t j = a; j < e; ++j) F(i, j) -= X(1) / X((LR)(e - a));
    } else if (kind) {
      LR s = 0;
      for (auto &x : w) s += std::norm(x);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) F(i, j) -= w[i] * conj_(w[j]) / X(s);
    }
    return F;
  }
};
struct Log {
  long   calls = 0;
  size_t n = 0;
  char   sig = 0;
  void * ptr = nullptr;
};
template <class T>
inline void project(void *x_, size_t n, const Vec &w) {
  T *x = (T *)x_;
  X  d(0);
  LR s = 0;
  for (size_t i = 0; i < n; ++i) d += conj_(w[i]) * up(x[i]), s += std::norm(w[i]);
  for (size_t i = 0; i < n; ++i) x[i] = Down<T>::f(up(x[i]) - w[i] * d / X(s));
}
inline void user_project(void *x, size_t n, char sig, const Vec &w, Log *log) {
  ++log->calls, log->n = n, log->sig = sig, log->ptr = x;
  if (n != w.size()) return;
#if VT < 2
  sig == 'd' ? project<double>(x, n, w) : project<float>(x, n, w);
#else
  sig == 'z' ? project<std::complex<double>>(x, n, w) : project<std::complex<float>>(x, n, w);
#endif
}
struct Sub : hif::NspFilter {
  Vec  w;
  Log *log;
  Sub(const Vec &v, Log *l) : w(v), log(l) { _type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char sig) const override { user_project(x, n, sig, w, log); }
};
template <class T> struct SigOf;
template <> struct SigOf<double> { static const char c = 'd'; };
template <> struct SigOf<float> { static const char c = 's'; };
template <> struct SigOf<std::complex<double>> { static const char c = 'z'; };
template <> struct SigOf<std::complex<float>> { static const char c = 'c'; };
inline Model gen_model(Src &src, size_t n) {
  Model m;
  m.kind = src.pick({1, 1, 1, 2, 3});
  if (m.kind == 1) {
    if (!src.chance(1, 4)) {
      m.a = src.below(n + 1);
      m.b = src.chance(1, 5) ? NPOS : src.chance(1, 8) ? n + 1 + src.below(4) : m.a + src.below(n - m.a + 1);
      if (src.chance(1, 12)) m.b = src.below(n + 1);  // may lie before the start
    }
  } else {
    m.w = gen_vec_x(src, n);
    m.w[src.below(n)] += X(3);
    LR s = 0;
    for (auto &x : m.w) s += std::norm(x);
    if (!(s > 1e-3)) m.w[0] = X(1000);
  }
  return m;
}
inline hif::NspFilterPtr build(Src &src, const Model &m, Log *log) {
  if (m.kind == 3) return std::make_shared<Sub>(m.w, log);
  if (m.kind == 2) {
    Vec                          w  = m.w;
    hif::NspFilter::user_cb_type cb = [w, log](void *x, const std::size_t n, const char s) { user_project(x, n, s, w, log); };
    if (src.chance(1, 2)) return hif::create_nsp_filter(cb);
    auto p = hif::create_nsp_filter(src.below(3), src.below(5));  // an earlier declaration is replaced
    p->set_nsp_callback(cb);
    return p;
  }
  switch (src.below(3)) {
    case 0: {
      auto p = hif::create_nsp_filter();
      p->set_nsp_const(m.a, m.b);
      return p;
    }
    case 1: {
      auto p = hif::create_nsp_filter(hif::NspFilter::user_cb_type([log](void *, const std::size_t, const char) { ++log->calls; }));
      p->set_nsp_const(m.a, m.b);
      return p;
    }
    default:
      if (m.a == 0 && m.b == NPOS) return hif::create_nsp_filter();
      if (m.b == NPOS) return hif::create_nsp_filter(m.a);
      return hif::create_nsp_filter(m.a, m.b);
  }
}
template <class W>
inline void judge(const Model &m, const hif::Array<W> &raw, const hif::Array<W> &got, const char *what) {
  size_t n = raw.size();
  LR     e = std::numeric_limits<typename hif::ValueTypeTrait<W>::value_type>::epsilon();
  Mat    F = m.proj(n);
  Vec    y = lift(raw), z = F * y;
  Vec    mag = absmul(mabs(F), y);
  for (size_t i = 0; i < n; ++i) {
    bool in = m.kind == 1 ? (i >= m.a && i < ((m.b == NPOS || m.b < m.a) ? n : m.b)) : m.kind != 0;
    if (!in) CHECK(biteq(raw[i], got[i]), what << ": entry " << i << " outside the declared range changed from " << raw[i] << " to " << got[i]);
    LR d = std::abs(up(got[i]) - z[i]);
    CHECK(d <= (LR)(4 * n + 40) * e * (std::real(mag[i]) + std::abs(y[i])) + std::numeric_limits<typename hif::ValueTypeTrait<W>::value_type>::min(),
          what << ": entry " << i << " is " << got[i] << ", unfiltered " << raw[i] << ", expected " << (double)std::abs(z[i]));
  }
}
template <class W>
inline void solve_once(H &M, const Model &m, Log &log, bool other_cb, Src &src, bool tr, size_t r, const char *what) {
  size_t        n = M.nrows();
  hif::Array<W> b(n), x(n), raw(n);
  Vec           v = gen_vec_x(src, n);
  for (size_t i = 0; i < n; ++i) b[i] = Down<W>::f(v[i]), x[i] = W(3);
  auto p = M.nsp, q = M.nsp_tran;
  M.nsp.reset(), M.nsp_tran.reset();
  M.solve(b, raw, tr, r);
  for (auto &e : raw)
    if (!finite_(up(e))) throw pbt::Discard();
  M.nsp = p, M.nsp_tran = q;
  long before = log.calls;
  bool threw  = false;
  try { M.solve(b, x, tr, r); } catch (const std::exception &) { threw = true; }
  CHECK(threw == m.bad(n), what << (threw ? ": a valid filter range was rejected" : ": a filter range beyond the vector was accepted"));
  if (threw) return;
  judge(m, raw, x, what);
  if (m.kind >= 2) {
    CHECK(log.calls == before + 1, what << ": the user's filter ran " << log.calls - before << " times");
    CHECK(log.n == n && log.sig == SigOf<W>::c && log.ptr == x.data(), what << ": the user's filter received n=" << log.n << " type '" << log.sig << "'" << (log.ptr == x.data() ? "" : " and another vector"));
  } else
    CHECK(log.calls == before, what << ": a replaced callback was called");
}
}  // namespace
// the filter alone
template <class W>
static void direct(Src &src, Ctx &ctx) {
  size_t n = 1 + src.below(30);
  Model  m = gen_model(src, n);
  Log    log;
  auto   f = build(src, m, &log);
  if (src.chance(1, 3)) {  // copies act alike
    if (m.kind != 3) f = std::make_shared<hif::NspFilter>(*f);
  }
  hif::Array<W> x(n), y(n);
  Vec           v = gen_vec_x(src, n);
  LR            big = src.pick({1.0, 1e6, 1e-6});
  for (size_t i = 0; i < n; ++i) x[i] = y[i] = Down<W>::f(v[i] * X(big));
  ctx.desc << "filter kind " << m.kind << " range [" << m.a << "," << (long)m.b << ") n=" << n << " type " << SigOf<W>::c;
  bool threw = false;
  try { f->filter(y.data(), n); } catch (const std::exception &) { threw = true; }
  CHECK(threw == m.bad(n), (threw ? "a valid range was rejected" : "a range beyond the vector was accepted"));
  if (threw) {
    for (size_t i = 0; i < n; ++i) CHECK(biteq(x[i], y[i]), "a rejected filter changed entry " << i);
    ctx.label("rejected");
    return;
  }
  judge(m, x, y, "filter");
  // the declared component is really gone: applying it again changes nothing
  hif::Array<W> z(n);
  for (size_t i = 0; i < n; ++i) z[i] = y[i];
  f->filter(z.data(), n);
  LR e = std::numeric_limits<typename hif::ValueTypeTrait<W>::value_type>::epsilon(), mx = vmax(lift(x));
  for (size_t i = 0; i < n; ++i) CHECK(std::abs(up(z[i]) - up(y[i])) <= (LR)(8 * n + 80) * e * mx, "filtering twice changes entry " << i);
  ctx.label("kind=" + std::to_string(m.kind));
  ctx.nontrivial(n >= 2 && (m.kind != 1 || m.a < n));
}
PBT_PROP(filter, 6000, 100000) {
#if VT < 2
  src.chance(1, 2) ? direct<float>(src, ctx) : direct<double>(src, ctx);
#else
  src.chance(1, 2) ? direct<std::complex<float>>(src, ctx) : direct<std::complex<double>>(src, ctx);
#endif
}
// histories of attaching, replacing and detaching filters between operations of one preconditioner
PBT_PROP(history, 2500, 50000) {
  FactCase c = gen_fact(src, ctx, 16, src.chance(1, 3));
  size_t   n = c.g.n;
  H        M;
  try { do_factorize(M, c); } catch (const std::exception &) { throw pbt::Discard(); }
  if (M.schur_rank() != M.schur_size()) throw pbt::Discard();
  Mat un[2] = {columns(M, false, false, 0), columns(M, false, true, 0)};
  if (!allfinite(un[0]) || !allfinite(un[1])) { ctx.label("overflow"); return; }
  Model mod[2];
  Log   log[2];
  long  steps = 2 + src.below(10), used = 0;
  auto  A = c.g.crs<>();
  Mat   Ad = c.g.dense();
  for (long k = 0; k < steps; ++k) {
    bool tr = src.chance(1, 2);
    int  op = src.pick({0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 5, 6});
    ctx.desc << "|" << op << (tr ? "T" : "");
    hif::NspFilterPtr &slot = tr ? M.nsp_tran : M.nsp;
    switch (op) {
      case 0: {
        mod[tr] = gen_model(src, n);
        slot    = build(src, mod[tr], &log[tr]);
        ctx.desc << " kind" << mod[tr].kind << "[" << mod[tr].a << "," << (long)mod[tr].b << ")";
        break;
      }
      case 1: mod[tr] = Model(), slot.reset(); break;
      case 2: {
        long other = log[!tr].calls;
#if VT == 1
        src.chance(1, 3) ? solve_once<double>(M, mod[tr], log[tr], false, src, tr, 0, "solve (double vectors)") :
#elif VT == 3
        src.chance(1, 3) ? solve_once<std::complex<double>>(M, mod[tr], log[tr], false, src, tr, 0, "solve (double vectors)") :
#endif
        solve_once<V>(M, mod[tr], log[tr], false, src, tr, 0, tr ? "transposed solve" : "solve");
        CHECK(log[!tr].calls == other, "the filter of the other side was called");
        if (mod[tr].kind) ++used;
        break;
      }
      case 3: {  // multiplication applies no filter
        hif::Array<V> b = gen_arr(src, n), x(n), y(n);
        long          l0 = log[0].calls + log[1].calls;
        M.mmultiply(b, x, tr);
        auto p = M.nsp, q = M.nsp_tran;
        M.nsp.reset(), M.nsp_tran.reset();
        M.mmultiply(b, y, tr);
        M.nsp = p, M.nsp_tran = q;
        for (size_t i = 0; i < n; ++i) CHECK(biteq(x[i], y[i]), "multiplication changed by a null-space filter");
        CHECK(log[0].calls + log[1].calls == l0, "multiplication called a null-space filter");
        break;
      }
      case 4: {  // several right-hand sides: rejected with a filter, else unaffected
        typedef std::array<V, 2> Row;
        hif::Array<Row>          b(n), x(n);
        for (auto &e : b) e[0] = gen_val(src), e[1] = gen_val(src);
        bool threw = false;
        try { M.solve_mrhs(b, x); } catch (const std::exception &) { threw = true; }
        CHECK(threw == bool(mod[0].kind), "several right-hand sides " << (threw ? "rejected without" : "accepted with") << " a null-space filter");
        break;
      }
      case 5: {  // refinement filters every correction
        if (mod[tr].bad(n)) break;
        size_t        N = src.pick({1, 2, 3, 5});
        hif::Array<V> b = gen_arr(src, n), x(n);
        double        betas[2] = {src.pick({1e-12, 0.3}), 1e30};
        bool          bounded  = src.chance(1, 3);
        bool          zero     = true;
        for (auto &e : b) zero = zero && e == V(0);
        if (zero) break;
        std::pair<size_t, int> f;
        long                   l0 = log[tr].calls;
        bounded ? (void)(f = M.hifir(A, b, N, betas, x, tr, size_t(-1))) : M.hifir(A, b, N, x, tr, size_t(-1));
        long   applied = log[tr].calls - l0;
        RefOp  inv     = ref_inverse(M.precs().cbegin(), size_t(-1), tr);
        Mat    F       = mod[tr].proj(n);
        if (bdist(un[tr], inv.val, inv.bnd) > (IS_SINGLE ? 2000 : 1e4L)) break;
        inv.val = F * un[tr];
        inv.bnd = (mabs(F) + Mat::eye(n)) * inv.bnd;
        Ref ref = reference<V>(M, Ad, lift(b), N, bounded && N > 1 ? betas : nullptr, tr, size_t(-1), inv);
        if (!ref.fin || !ref.sure) { ctx.label("borderline"); break; }
        if (bounded) CHECK(f.first == (N < 2 ? 1 : ref.iters), "filtered refinement reports " << f.first << " steps instead of " << ref.iters);
        LR G = IS_SINGLE ? 40 : 2000, sum = 0;
        X  tot(0);
        for (size_t i = 0; i < n; ++i) {
          LR d = std::abs(up(x[i]) - ref.x[i]), bd = G * EPS * ref.err[i];
          CHECK(d <= bd + std::numeric_limits<R>::min(), "filtered refinement: entry " << i << " is " << x[i] << " but " << N << " steps give " << (double)std::abs(ref.x[i]) << " (allowed " << (double)bd << ")");
          sum += bd;
        }
        if (mod[tr].kind >= 2) CHECK(applied == (long)ref.iters, "refinement of " << ref.iters << " steps called the filter " << applied << " times");
        ctx.label("refined");
        if (mod[tr].kind) ++used;
        break;
      }
      default: {  // detached filters leave the plain result
        auto p = M.nsp, q = M.nsp_tran;
        M.nsp.reset(), M.nsp_tran.reset();
        Mat now = columns(M, false, tr, 0);
        for (size_t i = 0; i < n; ++i)
          for (size_t j = 0; j < n; ++j) CHECK(now(i, j) == un[tr](i, j), "after detaching, the solve differs from the unfiltered one");
        M.nsp = p, M.nsp_tran = q;
      }
    }
  }
  if (src.chance(1, 4)) {
    M.clear();
    CHECK(M.empty() && !M.nsp && !M.nsp_tran, "clear leaves a filter attached");
  }
  ctx.nontrivial(used >= 1);
}
