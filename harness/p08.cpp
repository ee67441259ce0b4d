// P08: iterative refinement performs exactly the documented iteration.
#include "refine.hpp"
typedef hif::HIF<V> H;
static void refine(Src &src, Ctx &ctx, bool filtered) {
  FactCase c = gen_fact(src, ctx, 20, src.chance(1, 5));
  if (src.chance(1, 2)) c.p.tau_L = c.p.tau_U = src.pick({0.1, 0.5, 0.02}), c.p.alpha_L = c.p.alpha_U = src.pick({2., 1., 5.});
  size_t n = c.g.n;
  H      M;
  try { do_factorize(M, c); } catch (const std::exception &) { throw pbt::Discard(); }
  // the matrix of the iteration need not be the factorized one
  Sp a = c.g;
  if (src.chance(1, 4))
    for (auto &row : a.r)
      for (auto &e : row)
        if (src.chance(1, 3)) e.second *= (R)1.25;
  bool   tr = src.chance(1, 2), bounded = src.chance(1, 2);
  size_t r  = M.schur_size() && src.chance(1, 4) ? 1 + src.below(M.schur_size()) : size_t(-1);
  if (r != size_t(-1) && r > M.schur_rank()) r = size_t(-1);
  if (r == size_t(-1) && M.schur_rank() < M.schur_size()) r = std::max<size_t>(1, M.schur_rank());  // regular use
  if (M.schur_size() && !M.schur_rank()) throw pbt::Discard();
  size_t N = src.pick({2, 3, 4, 6, 1, 0, 10});
  double betas[2];
  betas[0] = src.pick({1e-3, 1e-6, 0.3, 0.0, 1e-12});
  betas[1] = src.pick({1e3, 1.0, 0.5, 1e10, 0.05});
  if (bounded) N = src.pick({4, 10, 30, 2, 1, 0});
  int          how = src.below(3);  // CRS, CCS, callback
  hif::Array<V> b = gen_arr(src, n), x(n);
  bool          zero = src.chance(1, 15);
  if (zero) for (auto &v : b) v = V(0);
  if (src.chance(1, 8)) {  // the iteration does not depend on the scale of the problem
    R sc = (R)std::ldexp(1.0, IS_SINGLE ? src.pick({-30, 30}) : src.pick({-200, 200, -120}));
    for (auto &v : b) v *= sc;
    ctx.desc << " b scaled by " << sc;
    ctx.label("scaled b");
  }
  for (auto &v : x) v = src.chance(1, 2) ? V(9) : Down<V>::f(X(std::numeric_limits<LR>::quiet_NaN()));
  ctx.desc << " refine N=" << N << (tr ? " T" : "") << " r=" << (long)r << " bounded=" << bounded << " betas=" << betas[0] << "," << betas[1] << " how=" << how << " zero=" << zero;
  Mat A = a.dense();
  std::pair<size_t, int> f{77, 77};
  long                   calls = 0;
  typedef std::function<void(const void *, const size_t, const char, void *, const char, const bool)> Fn;
  auto crs = a.crs<>();
  auto ccs = a.ccs<>();
  bool badcb = false;
  Fn   fn = [&](const void *in, const size_t m, const char is, void *out, const char os, const bool t) {
    ++calls;
    if (m != n || is != os || t != tr) badcb = true;
    hif::Array<V> i_(n, (V *)in, true), o_(n, (V *)out, true);
    crs.multiply(i_, o_, t);
  };
  switch (how) {
    case 0: bounded ? (void)(f = M.hifir(crs, b, N, betas, x, tr, r)) : M.hifir(crs, b, N, x, tr, r); break;
    case 1: bounded ? (void)(f = M.hifir(ccs, b, N, betas, x, tr, r)) : M.hifir(ccs, b, N, x, tr, r); break;
    default: bounded ? (void)(f = M.hifir(fn, b, N, betas, x, tr, r)) : M.hifir(fn, b, N, x, tr, r);
  }
  CHECK(!badcb, "the user's operator was called with a wrong size, type or transpose flag");
  if (N <= 1) {
    hif::Array<V> y(n);
    M.solve(b, y, tr, r);
    for (size_t i = 0; i < n; ++i) CHECK(x[i] == y[i] || biteq(x[i], y[i]), "refinement with " << N << " steps differs from a plain solve");
    if (bounded) CHECK(f.first == 1 && f.second == -1, "refinement with " << N << " steps reports " << f.first << "," << f.second);
    ctx.label("plain");
    return;
  }
  if (zero) {
    for (size_t i = 0; i < n; ++i) CHECK(x[i] == V(0), "zero right-hand side gives " << x[i]);
    if (bounded) CHECK(f.first == 0 && f.second == 0, "zero right-hand side reports " << f.first << "," << f.second);
    ctx.label("zero");
    return;
  }
  RefOp inv = ref_inverse(M.precs().cbegin(), r, tr);
  // the action really applied, so that only rounding of single applications remains
  Mat cols = columns(M, false, tr, r);
  if (!allfinite(cols)) { ctx.label("overflow"); return; }
  LR  w0 = bdist(cols, inv.val, inv.bnd);
  if (w0 > (IS_SINGLE ? 2000 : 1e4L)) { ctx.label("unclear solve"); return; }
  inv.val = cols;
  Vec xb  = lift(b);
  Ref ref = reference<V>(M, A, xb, N, bounded ? betas : nullptr, tr, r, inv);
  if (!ref.fin) { ctx.label("diverged"); return; }
  if (!ref.sure) { ctx.label("borderline"); return; }
  if (bounded) {
    CHECK(f.first == ref.iters && f.second == ref.flag, "reported (steps,flag)=(" << f.first << "," << f.second << ") but the iteration gives (" << ref.iters << "," << ref.flag << ")");
    ctx.label("flag=" + std::to_string(f.second));
  }
  if (how == 2 && !bounded) CHECK(calls == (long)N - 1, "operator applied " << calls << " times in " << N << " steps");
  LR G = IS_SINGLE ? 20 : 1000, scale = 0, tot = 0;
  for (size_t i = 0; i < n; ++i) {
    LR d = std::abs(up(x[i]) - ref.x[i]), bd = G * EPS * ref.err[i];
    CHECK(d <= bd + std::numeric_limits<R>::min(), "entry " << i << " is " << x[i] << " but " << N << " steps of the iteration give " << (double)std::abs(ref.x[i]) << " (difference " << (double)d << ", allowed " << (double)bd << ")");
    tot = std::max(tot, bd), scale = std::max(scale, std::abs(ref.x[i]));
  }
  if (tot > 1e-3 * scale) ctx.label("illcond");
  else { ctx.nontrivial(n >= 3 && ref.iters >= 2); ctx.label("judged"); }
}
PBT_PROP(refine, 8000, 200000) { refine(src, ctx, false); }
#if VT == 1 || VT == 3
// a single precision preconditioner refining a double precision system
PBT_PROP(refine_mixed, 3000, 60000) {
#if VT == 1
  typedef double W;
#else
  typedef std::complex<double> W;
#endif
  FactCase c = gen_fact(src, ctx, 16, false);
  c.via      = 0;
  size_t n   = c.g.n;
  H      M;
  try { do_factorize(M, c); } catch (const std::exception &) { throw pbt::Discard(); }
  if (M.schur_rank() != M.schur_size()) throw pbt::Discard();
  bool          tr = src.chance(1, 2);
  size_t        N  = src.pick({2, 3, 5, 1});
  auto          A = c.g.crs<int, std::ptrdiff_t, W>();
  hif::Array<W> b(n), x(n);
  Vec           xb = gen_vec_x(src, n);
  for (size_t i = 0; i < n; ++i) b[i] = Down<W>::f(xb[i]), x[i] = W(4);
  double betas[2] = {1e-4, 1e4};
  bool   bounded  = src.chance(1, 2);
  std::pair<size_t, int> f;
  bounded ? (void)(f = M.hifir(A, b, N, betas, x, tr)) : M.hifir(A, b, N, x, tr);
  RefOp inv  = ref_inverse(M.precs().cbegin(), 0, tr);
  Mat   cols = columns(M, false, tr, 0);
  if (!allfinite(cols) || bdist(cols, inv.val, inv.bnd) > 2000) { ctx.label("unclear"); return; }
  inv.val = cols;
  Ref ref = reference<W>(M, c.g.dense(), lift(b), N, bounded && N > 1 ? betas : nullptr, tr, 0, inv);
  if (!ref.fin || !ref.sure) { ctx.label("borderline"); return; }
  if (bounded && N > 1) CHECK(f.first == ref.iters && f.second == ref.flag, "reported (steps,flag)=(" << f.first << "," << f.second << ") but the iteration gives (" << ref.iters << "," << ref.flag << ")");
  for (size_t i = 0; i < n; ++i) {
    LR d = std::abs(up(x[i]) - ref.x[i]), bd = 20 * EPS * ref.err[i];
    CHECK(d <= bd + std::numeric_limits<R>::min(), "entry " << i << " is " << x[i] << " but " << N << " steps give " << (double)std::abs(ref.x[i]));
  }
  ctx.nontrivial(n >= 3 && N >= 2);
}
#endif
