// P02: the product with the preconditioner undoes the solve, and reproduces A when nothing is dropped.
#include "fact.hpp"
static void inverse_pair(Src &src, Ctx &ctx, bool exact) {
  FactCase c = gen_fact(src, ctx, 26, exact);
  size_t   n = c.g.n;
  hif::HIF<V> M;
  do_factorize(M, c);
  bool full = M.schur_rank() == M.schur_size();
  ctx.label("levels=" + std::to_string(M.levels()));
  if (!full) { ctx.label("truncated"); return; }
  for (int tr = 0; tr < 2; ++tr) {
    Mat S = columns(M, false, tr), P = columns(M, true, tr);
    if (!allfinite(S) || !allfinite(P)) { ctx.label("overflow"); continue; }
    RefOp f = ref_forward(M.precs().cbegin(), 0, tr), i = ref_inverse(M.precs().cbegin(), 0, tr);
    // product then solve, and solve then product
    for (int k = 0; k < 2; ++k) {
      Mat I = k ? P * S : S * P, B = k ? f.bnd * i.bnd : i.bnd * f.bnd;
      LR  G = IS_SINGLE ? 2000 : 1e6L, mx = 0;
      for (auto &x : B.a) mx = std::max(mx, std::abs(x));
      if (EPS * mx > (IS_SINGLE ? 1e-2L : 1e-7L)) { ctx.label("illcond"); continue; }
      LR w = bdist(I, Mat::eye(n), B);
      CHECK(w <= G, (tr ? "transposed " : "") << (k ? "multiply(solve(x))" : "solve(multiply(x))") << " differs from x: " << (double)w << " eps*bound, levels " << M.levels());
      ctx.nontrivial(n >= 3 && c.g.nnz() > n);
      ctx.label("judged");
    }
    if (exact) {
      Mat A = c.g.dense();
      if (tr) A = A.H();
      LR G = IS_SINGLE ? 2000 : 1e6L;
      // growth inside the factors: entries are judged against the largest scaled entry
      const auto &p0 = M.precs().front();
      Mat         B(n, n);
      LR          mx = 0;
      for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < n; ++b) {
          LR sc = tr ? (LR)p0.t[a] * (LR)p0.s[b] : (LR)p0.s[a] * (LR)p0.t[b];
          mx    = std::max(mx, sc * std::max((LR)std::abs(A(a, b)), (LR)std::abs(f.bnd(a, b))));
        }
      for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < n; ++b) {
          LR sc   = tr ? (LR)p0.t[a] * (LR)p0.s[b] : (LR)p0.s[a] * (LR)p0.t[b];
          B(a, b) = X(mx / sc);
        }
      LR w = bdist(P, A, B);
      CHECK(w <= G, (tr ? "transposed " : "") << "product differs from the matrix: " << (double)w << " eps*scale, levels " << M.levels());
    }
  }
}
PBT_PROP(inverse_exact, 4000, 100000) { inverse_pair(src, ctx, true); }
PBT_PROP(inverse_dropped, 6000, 150000) { inverse_pair(src, ctx, false); }
