// P03: solve and multiply are linear; the transposed operation is the adjoint.
#include "fact.hpp"
static void body(Src &src, Ctx &ctx, bool mult) {
  bool     exact = src.chance(1, 3);
  FactCase c     = gen_fact(src, ctx, 26, exact);
  if (src.chance(1, 4)) {  // make it singular, so that the last block is truncated
    size_t n = c.g.n, a = src.below(n), b = src.below(n);
    if (a != b && !c.p.is_symm) {
      c.g.r[a] = c.g.r[b];
      ctx.label("singular");
    }
  }
  size_t      n = c.g.n;
  hif::HIF<V> M;
  try {
    do_factorize(M, c);
  } catch (const std::exception &) { throw pbt::Discard(); }
  size_t r = 0;
  if (M.schur_size() && src.chance(1, 4)) r = 1 + src.below(M.schur_size());
  ctx.desc << " r=" << r << " rank " << M.schur_rank() << "/" << M.schur_size();
  // a requested rank beyond the numerical one divides by negligible pivots
  if (r > M.schur_rank()) r = 0;
  ctx.label("levels=" + std::to_string(M.levels()));
  if (M.schur_rank() != M.schur_size()) ctx.label("truncated");
  RefOp f = mult ? ref_forward(M.precs().cbegin(), r, false) : ref_inverse(M.precs().cbegin(), r, false);
  RefOp g = mult ? ref_forward(M.precs().cbegin(), r, true) : ref_inverse(M.precs().cbegin(), r, true);
  Mat   S = columns(M, mult, false, r), T = columns(M, mult, true, r);
  if (!allfinite(S) || !allfinite(T)) { ctx.label("overflow"); return; }
  LR  G = IS_SINGLE ? 2000 : 1e5L;
  Mat B = f.bnd + g.bnd.T();
  for (int k = 0; k < 2; ++k) {
    // linearity: random combinations against the columns
    Vec x = gen_vec_x(src, n), y = gen_vec_x(src, n);
    X   a = up(gen_val(src)), b = up(gen_val(src));
    hif::Array<V> in(n), out(n);
    for (size_t i = 0; i < n; ++i) in[i] = Down<V>::f(a * x[i] + b * y[i]);
    for (auto &v : out) v = V(5);
    mult ? M.mmultiply(in, out, k != 0, r) : M.solve(in, out, k != 0, r);
    const Mat &O = k ? T : S;
    Vec        w = O * lift(in), bd = mabs(k ? g.bnd : f.bnd) * [&] { Vec z = lift(in); for (auto &v : z) v = X(std::abs(v)); return z; }();
    for (size_t i = 0; i < n; ++i) {
      LR d = std::abs(up(out[i]) - w[i]);
      CHECK(d <= G * EPS * std::abs(bd[i]) + std::numeric_limits<R>::min(), (mult ? "multiply" : "solve") << (k ? " transposed" : "") << " is not linear at entry " << i << ": off by " << (double)d << " bound " << (double)std::abs(bd[i]));
    }
  }
  LR w = bdist(S, T.H(), B);
  CHECK(w <= G, (mult ? "multiply" : "solve") << ": transposed operation is not the adjoint: " << (double)w << " eps*bound; levels " << M.levels());
  if (c.p.is_symm) {
    LR w2 = bdist(S, S.H(), B + B.T());
    CHECK(w2 <= G, (mult ? "multiply" : "solve") << ": symmetric factorization is not self-adjoint: " << (double)w2);
  }
  ctx.nontrivial(n >= 3 && c.g.nnz() > n);
}
PBT_PROP(adjoint_solve, 5000, 120000) { body(src, ctx, false); }
PBT_PROP(adjoint_multiply, 5000, 120000) { body(src, ctx, true); }
