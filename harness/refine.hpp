// The documented refinement iteration, replayed with the preconditioner's own solve.
#pragma once
#include "fact.hpp"
namespace {
struct Ref {
  Vec             x;
  std::vector<LR> err;  // bound of the rounding errors, in units of eps
  size_t          iters = 0;
  int             flag  = 0;
  bool            sure  = true, fin = true;
};
inline LR nrm2(const Vec &v) {
  LR s = 0;
  for (auto &x : v) s += std::norm(x);
  return std::sqrt(s);
}
// the documented iteration, with the preconditioner's own solve (on vectors of type W) and long double arithmetic elsewhere
template <class W, class M>
inline Ref reference(const M &h, const Mat &A, const Vec &b, size_t N, const double *betas, bool tr, size_t r, const RefOp &inv) {
  size_t n = b.size();
  Mat    Op = tr ? A.H() : A, aOp = mabs(Op);
  Mat    It = Mat::eye(n) - inv.val * Op, aIt = mabs(It);
  Ref    o;
  o.x.assign(n, X(0));
  o.err.assign(n, 0);
  Vec res = b;
  LR  bn  = nrm2(b);
  for (;;) {
    // correction
    hif::Array<W> r_(n), z_(n);
    for (size_t i = 0; i < n; ++i) r_[i] = Down<W>::f(res[i]);
    h.solve(r_, z_, tr, r);
    Vec z = lift(z_);
    Vec mag(n);
    Vec ax = absmul(aOp, o.x);
    for (size_t i = 0; i < n; ++i) mag[i] = X(std::abs(b[i])) + ax[i];
    Vec             nb = absmul(inv.bnd, mag);
    std::vector<LR> e2(n, 0);
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) e2[i] += std::abs(aIt(i, j)) * o.err[j];
      e2[i] += std::real(nb[i]) * 2 + std::abs(o.x[i]) + std::abs(z[i]);
    }
    o.err = e2;
    for (size_t i = 0; i < n; ++i) {
      o.x[i] += z[i];
      if (!finite_(o.x[i]) || std::abs(o.x[i]) > (IS_SINGLE ? 1e15L : 1e100L)) o.fin = false;
    }
    if (!o.fin) return o;
    ++o.iters;
    if (o.iters >= N) { o.flag = -1; return o; }
    Vec ay = Op * o.x;
    for (size_t i = 0; i < n; ++i) res[i] = b[i] - ay[i];
    if (betas) {
      LR rr = nrm2(res) / bn;
      // how far the computed residual may be off
      Vec er(n);
      for (size_t i = 0; i < n; ++i) er[i] = X(o.err[i]);
      Vec ee = absmul(aOp, er), a2 = absmul(aOp, o.x);
      LR  s = 0;
      for (size_t i = 0; i < n; ++i) { LR t = std::real(ee[i]) + 2 * std::real(a2[i]) + std::abs(b[i]); s += t * t; }
      LR slack = EPS * 20 * std::sqrt(s) / bn + rr * (IS_SINGLE ? 1e-4L : 1e-8L);
      for (int k = 0; k < 2; ++k)
        if (std::abs(rr - (LR)betas[k]) <= slack) { o.sure = false; return o; }
      if (rr <= betas[0]) { o.flag = 0; return o; }
      if (rr > betas[1]) { o.flag = 1; return o; }
    }
  }
}
}  // namespace
