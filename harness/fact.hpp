// A generated factorization problem and the ways of handing it to the library.
#pragma once
#include "ref.hpp"
namespace {
struct FactCase {
  Sp          g;
  int         kind = 0;
  hif::Params p;
  int         via = 0;  // 0 crs, 1 ccs
  size_t      m0  = 0;
};
inline FactCase gen_fact(Src &s, Ctx &ctx, size_t nmax, bool exact, bool allow_symm = true) {
  FactCase c;
  c.p       = gen_params(s, exact);
  GenMat gm = gen_square(s, nmax);
  c.kind    = gm.kind;
  c.g       = gm.A;
  c.via     = s.chance(1, 3);
  if (!IS_CPLX && allow_symm && s.chance(1, 4)) {
    c.g         = hermitize(c.g);
    c.p.is_symm = 1;
    if (s.chance(1, 3)) {  // definite system
      c.p.spd = s.chance(1, 2) ? -1 : 1;
      for (size_t i = 0; i < c.g.n; ++i) {
        double t = 0.25;
        for (auto &e : c.g.r[i])
          if (e.first != (int)i) t += std::abs(e.second);
        c.g.set(i, i, Down<V>::f(X((LR)(1.1 * t * c.p.spd))));
      }
      ctx.label("definite");
    }
  } else if (s.chance(1, 5)) {
    c.g = hermitize(c.g);
  }
  if (!c.p.is_symm && s.chance(1, 8)) {  // leading block symmetric, the rest general
    size_t n = c.g.n;
    c.m0     = 1 + s.below(n);
    Sp h     = hermitize(c.g);
    for (size_t i = 0; i < n; ++i)
      for (auto &e : h.r[i])
        if (e.first < (int)i) e.second = *h.find(e.first, i);  // symmetric, not Hermitian
    for (size_t i = 0; i < c.m0; ++i) {
      std::vector<std::pair<int, V>> row;
      for (auto &e : h.r[i])
        if (e.first < (int)c.m0) row.push_back(e);
      for (auto &e : c.g.r[i])
        if (e.first >= (int)c.m0) row.push_back(e);
      c.g.r[i] = row;
    }
    ctx.label("m0");
  } else if (c.p.is_symm && s.chance(1, 8)) {
    c.m0 = 1 + s.below(c.g.n);
    ctx.label("m0 symm");
  }
  if (s.chance(1, 10)) c.p.pre_scale = s.pick({1, 2, 3, -1});
  ctx.desc << "via=" << (c.via ? "ccs" : "crs") << " kind=" << kind_name(c.kind) << " m0=" << c.m0;
  desc_params(ctx.desc, c.p);
  ctx.desc << " A=";
  c.g.describe(ctx.desc);
  if (getenv("PBT_STAT")) { fprintf(stdout, "DESC %s\n", ctx.desc.str().c_str()); fflush(stdout); }
  ctx.label(std::string("kind=") + kind_name(c.kind));
  ctx.label("pivot=" + std::to_string(c.p.pivot));
  if (c.p.is_symm) ctx.label("is_symm");
  return c;
}
template <class M>
inline void do_factorize(M &h, const FactCase &c) {
  if (c.via) {
    auto A = c.g.ccs<>();
    h.factorize(A, c.p, c.m0);
  } else {
    auto A = c.g.crs<>();
    h.factorize(A, c.p, c.m0);
  }
}
inline Vec absmul(const Mat &A, const Vec &x) {
  Vec y(A.m, X(0));
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j) y[i] += std::abs(A(i, j)) * std::abs(x[j]);
  return y;
}
// reference solution with one step of refinement
inline Vec lu_refsolve(const Mat &A, const Mat &Ai, const Vec &b) {
  Vec x = Ai * b;
  Vec r = A * x;
  for (size_t i = 0; i < r.size(); ++i) r[i] = b[i] - r[i];
  Vec d = Ai * r;
  for (size_t i = 0; i < r.size(); ++i) x[i] += d[i];
  return x;
}
// |A^-1|(|A||x| + |b|)
inline std::vector<LR> skeel(const Mat &A, const Mat &Ai, const Vec &x, const Vec &b) {
  Vec w = absmul(A, x);
  for (size_t i = 0; i < w.size(); ++i) w[i] += std::abs(b[i]);
  Vec             t = absmul(Ai, w);
  std::vector<LR> r(t.size());
  for (size_t i = 0; i < r.size(); ++i) r[i] = std::real(t[i]);
  return r;
}
inline LR tolG(const FactCase &c) { return IS_SINGLE ? (c.m0 ? 3e4L : 1000) : c.m0 ? 1e9L : 1e5L; }
}  // namespace
namespace {
// ------------------------------------------------ dense reading of the levels
template <class CS>
inline Mat dense_cs(const CS &A, size_t m, size_t n) {
  Mat D(m, n);
  if (!m || !n || A.ind_start().size() < 2) return D;
  for (size_t i = 0; i + 1 < A.ind_start().size(); ++i)
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      size_t j = A.inds()[k];
      if (CS::ROW_MAJOR) { if (i < m && j < n) D(i, j) += up(A.vals()[k]); }
      else { if (j < m && i < n) D(j, i) += up(A.vals()[k]); }
    }
  return D;
}
inline Mat mabs(const Mat &A) {
  Mat B = A;
  for (auto &x : B.a) x = X(std::abs(x));
  return B;
}
inline Mat tri_inv(const Mat &T, bool lower) {  // unit triangular
  size_t n = T.m;
  Mat    I = Mat::eye(n);
  for (size_t c = 0; c < n; ++c) {
    if (lower) {
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) if (T(i, j) != X(0)) I(i, c) -= T(i, j) * I(j, c);
    } else {
      for (size_t i = n; i-- > 0;)
        for (size_t j = i + 1; j < n; ++j) if (T(i, j) != X(0)) I(i, c) -= T(i, j) * I(j, c);
    }
  }
  return I;
}
// an operator together with an entrywise bound of what was summed to get it
struct RefOp {
  Mat val, bnd;
};
// columns of the last dense block, through the block's own solver
template <class P>
inline RefOp dense_block(const P &prec, size_t nm, size_t r, bool trans, bool mult) {
  RefOp o;
  o.val = Mat(nm, nm);
  for (size_t j = 0; j < nm; ++j) {
    hif::Array<V> e(nm);
    for (auto &x : e) x = V(0);
    e[j] = V(1);
    if (!prec.dense_solver.empty()) mult ? prec.dense_solver.multiply(e, r, trans) : prec.dense_solver.solve(e, r, trans);
    else mult ? prec.symm_dense_solver.multiply(e, r) : prec.symm_dense_solver.solve(e, r);
    for (size_t i = 0; i < nm; ++i) o.val(i, j) = up(e[i]);
  }
  // normwise backward stable: every entry may be off by eps*cond*norm
  Mat  D  = prec.dense_solver.empty() ? Mat(nm, nm) : Mat(nm, nm);
  auto sv = svals(o.val);
  LR   mx = 0, mn = 0;
  for (auto v : sv) if (v > 0) { mx = std::max(mx, v); }
  for (auto v : sv) if (v > mx * 1e-12L) mn = v;
  LR c  = mn > 0 ? mx / mn : 1;
  o.bnd = Mat(nm, nm);
  for (auto &x : o.bnd.a) x = X(mx * c + mx);
  return o;
}
template <class It>
inline RefOp ref_inverse(It it, size_t r, bool trans) {
  const auto &P = *it;
  size_t      n = P.n, m = P.m, nm = n - m;
  Mat         L = dense_cs(P.L_B, m, m), U = dense_cs(P.U_B, m, m), Di(m, m);
  for (size_t i = 0; i < m; ++i) L(i, i) += 1, U(i, i) += 1, Di(i, i) = X(1) / up(P.d_B[i]);
  Mat   Li = tri_inv(L, true), Ui = tri_inv(U, false);
  Mat   Bi = Ui * Di * Li;
  Mat   aLi = mabs(Li), aUi = mabs(Ui);
  Mat   Bb  = aUi * mabs(U) * aUi * mabs(Di) * aLi * mabs(L) * aLi;
  RefOp in;
  in.val = Mat(n, n), in.bnd = Mat(n, n);
  auto put = [&](Mat &D, const Mat &S, size_t i0, size_t j0) {
    for (size_t i = 0; i < S.m; ++i)
      for (size_t j = 0; j < S.n; ++j) D(i0 + i, j0 + j) = S(i, j);
  };
  if (!nm) {
    in.val = Bi, in.bnd = Bb;
  } else {
    RefOp C;
    if (P.is_last_level()) {
      C = dense_block(P, nm, r, trans, false);
      if (trans) C.val = C.val.H(), C.bnd = C.bnd.T();
    } else {
      It nx = it;
      C     = ref_inverse(++nx, r, trans);
      if (trans) C.val = C.val.H(), C.bnd = C.bnd.T();
    }
    Mat E = dense_cs(P.E, nm, m), F = dense_cs(P.F, m, nm);
    Mat BF = Bi * F, EB = E * Bi, bBF = Bb * mabs(F), bEB = mabs(E) * Bb;
    Mat CEB = C.val * EB, bCEB = C.bnd * bEB;
    put(in.val, Bi + BF * CEB, 0, 0);
    put(in.bnd, Bb + bBF * bCEB, 0, 0);
    Mat z = BF * C.val;
    for (auto &x : z.a) x = -x;
    put(in.val, z, 0, m);
    put(in.bnd, bBF * C.bnd, 0, m);
    for (auto &x : CEB.a) x = -x;
    put(in.val, CEB, m, 0);
    put(in.bnd, bCEB, m, 0);
    put(in.val, C.val, m, m);
    put(in.bnd, C.bnd, m, m);
  }
  RefOp o;
  o.val = Mat(n, n), o.bnd = Mat(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      LR f        = (LR)P.t[i] * (LR)P.s[j];
      o.val(i, j) = f * in.val(P.q_inv[i], P.p_inv[j]);
      o.bnd(i, j) = f * in.bnd(P.q_inv[i], P.p_inv[j]);
    }
  if (trans) o.val = o.val.H(), o.bnd = o.bnd.T();
  return o;
}
template <class It>
inline RefOp ref_forward(It it, size_t r, bool trans) {
  const auto &P = *it;
  size_t      n = P.n, m = P.m, nm = n - m;
  Mat         L = dense_cs(P.L_B, m, m), U = dense_cs(P.U_B, m, m), D(m, m);
  for (size_t i = 0; i < m; ++i) L(i, i) += 1, U(i, i) += 1, D(i, i) = up(P.d_B[i]);
  Mat B = L * D * U, bB = mabs(L) * mabs(D) * mabs(U);
  RefOp in;
  in.val = Mat(n, n), in.bnd = Mat(n, n);
  auto put = [&](Mat &M, const Mat &S, size_t i0, size_t j0) {
    for (size_t i = 0; i < S.m; ++i)
      for (size_t j = 0; j < S.n; ++j) M(i0 + i, j0 + j) = S(i, j);
  };
  put(in.val, B, 0, 0), put(in.bnd, bB, 0, 0);
  if (nm) {
    Mat   Di(m, m);
    for (size_t i = 0; i < m; ++i) Di(i, i) = X(1) / up(P.d_B[i]);
    Mat   Li = tri_inv(L, true), Ui = tri_inv(U, false), aLi = mabs(Li), aUi = mabs(Ui);
    Mat   Bi = Ui * Di * Li, Bb = aUi * mabs(U) * aUi * mabs(Di) * aLi * mabs(L) * aLi;
    RefOp C;
    if (P.is_last_level()) C = dense_block(P, nm, r, trans, true);
    else { It nx = it; C = ref_forward(++nx, r, trans); }
    if (trans) C.val = C.val.H(), C.bnd = C.bnd.T();
    Mat E = dense_cs(P.E, nm, m), F = dense_cs(P.F, m, nm);
    put(in.val, F, 0, m), put(in.bnd, mabs(F), 0, m);
    put(in.val, E, m, 0), put(in.bnd, mabs(E) * (Mat::eye(m) + Bb * bB), m, 0);
    put(in.val, C.val + E * Bi * F, m, m), put(in.bnd, C.bnd + mabs(E) * Bb * mabs(F), m, m);
  }
  RefOp o;
  o.val = Mat(n, n), o.bnd = Mat(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      LR f        = 1 / ((LR)P.s[i] * (LR)P.t[j]);
      o.val(i, j) = f * in.val(P.p_inv[i], P.q_inv[j]);
      o.bnd(i, j) = f * in.bnd(P.p_inv[i], P.q_inv[j]);
    }
  if (trans) o.val = o.val.H(), o.bnd = o.bnd.T();
  return o;
}
// the action on the unit vectors
template <class H>
inline Mat columns(const H &M, bool mult, bool trans, size_t r = 0) {
  size_t n = M.nrows();
  Mat    D(n, n);
  for (size_t j = 0; j < n; ++j) {
    hif::Array<V> e(n), x(n);
    for (auto &v : e) v = V(0);
    for (auto &v : x) v = V(3);
    e[j] = V(1);
    mult ? M.mmultiply(e, x, trans, r) : M.solve(e, x, trans, r);
    for (size_t i = 0; i < n; ++i) D(i, j) = up(x[i]);
  }
  return D;
}
inline bool allfinite(const Mat &A) {
  for (auto &x : A.a)
    if (!finite_(x)) return false;
  return true;
}
// largest |A-B| relative to eps*bound
inline LR bdist(const Mat &A, const Mat &B, const Mat &bnd) {
  LR w = 0;
  for (size_t i = 0; i < A.a.size(); ++i) {
    LR d = std::abs(A.a[i] - B.a[i]);
    if (!(d <= 1e4000L)) return std::numeric_limits<LR>::infinity();
    LR b = std::abs(bnd.a[i]) * EPS;
    if (d > 0) w = std::max(w, d / std::max(b, (LR)std::numeric_limits<R>::min()));
  }
  return w;
}
}  // namespace
