// P01: with nothing dropped, solving with the factorization is solving with A.
#include "ref.hpp"
#include "fact.hpp"

PBT_PROP(exact_solve, 40000, 900000) {
  FactCase c = gen_fact(src, ctx, IS_SINGLE ? 25 : src.chance(1, 60) ? 120 : 40, true);
  Mat      A = c.g.dense();
  LU       lu(A);
  if (!lu.ok) throw pbt::Discard();
  Mat Ai = lu.inverse();
  size_t n = A.n;
  LR cond = A.normInf() * Ai.normInf();
  hif::HIF<V> M;
  do_factorize(M, c);
  CHECK(!M.empty() && M.levels() >= 1, "no levels after factorization");
  CHECK(M.nrows() == n && M.ncols() == n, "size accessor");
  for (int tr = 0; tr < 2; ++tr) {
    Mat B = tr ? A.H() : A, Bi = tr ? Ai.H() : Ai;
    hif::Array<V> b = gen_arr(src, n), x(n);
    for (auto &v : x) v = V(7);
    Vec bx = lift(b);
    M.solve(b, x, tr != 0);
    Vec ref = lu_refsolve(B, Bi, bx);
    // relaxed deferral thresholds admit that much more growth per level
    LR  grow = std::pow(std::max<LR>(3, std::max(c.p.kappa, c.p.kappa_d)) / 3, 2.0L * M.levels());
    LR  G   = tolG(c) * grow;
    LR  xn = vmax(ref), rel = EPS * G * cond, worst = vdist(lift(x), ref) / (EPS * cond * (xn + 1e-300L));
    if (!(rel < 0.05L)) { ctx.label("illcond"); continue; }
    ctx.label("levels=" + std::to_string(std::min<size_t>(M.levels(), 9)));
    if (FILE *rf_ = getenv("PBT_RATIO") ? fopen(getenv("PBT_RATIO"), "a") : nullptr) fprintf(rf_, "RATIO %Lg lv %zu n %zu %s\n", worst, M.levels(), n, kind_name(c.kind)), fclose(rf_);
    if (M.schur_rank() != M.schur_size()) {
      // the final dense factorization truncates at condition eps^(-2/3): legal
      // only for problems which come anywhere near that
      if (grow * (c.p.no_pre ? 100 : 1) * cond * std::pow(EPS, 2.0L / 3) * (IS_SINGLE ? 1e4L : 1e5L) > 1 || c.m0) { ctx.label("truncated"); continue; }
      CHECK(false, "regular matrix reported singular: schur rank " << M.schur_rank() << " of " << M.schur_size() << " levels " << M.levels());
    }
    if (worst > G && worst <= 1000 * G) {  // does the growth of the exposed factors account for it?
      RefOp f = ref_inverse(M.precs().cbegin(), 0, tr != 0);
      Vec   bd(n, X(0));
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) bd[i] += std::abs(f.bnd(i, j)) * std::abs(bx[j]);
      if (vdist(lift(x), ref) <= EPS * (vmax(bd) + cond * xn) * (IS_SINGLE ? 100 : 1000)) { ctx.label("growth"); continue; }
    }
    CHECK(worst <= G, (tr ? "A^H" : "A") << ": solve differs from the inverse, error/(eps*cond)=" << (double)worst << " levels=" << M.levels() << " max|x|=" << (double)vmax(lift(x)) << " max|ref|=" << (double)vmax(ref));
    ctx.nontrivial(n >= 3);
  }
}
