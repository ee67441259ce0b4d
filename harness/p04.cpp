// P04: every level of the factorization is structurally valid, the reported numbers describe the
// levels, and the operator is the multilevel formula evaluated densely from the exposed factors.
#include "fact.hpp"
template <class CS>
static void check_block(const CS &A, size_t m, size_t n, int tri, const char *what, int lvl) {
  CHECK(A.nrows() == m && A.ncols() == n, what << " has size " << A.nrows() << "x" << A.ncols() << ", expected " << m << "x" << n << " at level " << lvl);
  if (!m || !n) { CHECK(A.nnz() == 0, what << " nnz without rows or columns"); return; }
  const size_t np = CS::ROW_MAJOR ? m : n, ni = CS::ROW_MAJOR ? n : m;
  const auto & st = A.ind_start();
  CHECK(st.size() == np + 1, what << " pointer array length " << st.size() << " level " << lvl);
  CHECK(st[0] == 0, what << " first pointer " << st[0]);
  for (size_t i = 0; i < np; ++i) {
    CHECK(st[i] <= st[i + 1], what << " pointers decrease at " << i << " level " << lvl);
    for (auto k = st[i]; k < st[i + 1]; ++k) {
      auto j = A.inds()[k];
      CHECK(j >= 0 && (size_t)j < ni, what << " index " << j << " out of range at level " << lvl);
      if (k > st[i]) CHECK(A.inds()[k - 1] < j, what << " indices not sorted in " << i << " at level " << lvl);
      // tri 1: strictly lower, 2: strictly upper, in (row,col) terms
      size_t r = CS::ROW_MAJOR ? i : j, c = CS::ROW_MAJOR ? j : i;
      if (tri == 1) CHECK(r > c, what << " entry (" << r << "," << c << ") is not strictly lower, level " << lvl);
      if (tri == 2) CHECK(r < c, what << " entry (" << r << "," << c << ") is not strictly upper, level " << lvl);
      CHECK(finite_(up(A.vals()[k])), what << " entry (" << r << "," << c << ") is not finite, level " << lvl);
    }
  }
  CHECK((size_t)st[np] == A.nnz() && A.inds().size() >= A.nnz() && A.vals().size() >= A.nnz(), what << " array lengths, level " << lvl);
}
template <class P>
static void check_perm(const P &p, const P &pi, size_t n, const char *what, int lvl) {
  CHECK(p.size() == n && pi.size() == n, what << " length " << p.size() << "/" << pi.size() << " level " << lvl);
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; ++i) {
    CHECK(p[i] >= 0 && (size_t)p[i] < n && !seen[p[i]], what << " is not a bijection at level " << lvl << " position " << i);
    seen[p[i]] = 1;
  }
  for (size_t i = 0; i < n; ++i) CHECK((size_t)pi[p[i]] == i, what << " and its inverse do not match at level " << lvl);
}
template <class CS, class P>
static void check_export(P &prec, int lvl) {
  size_t m, n, nl, nu, ne, nf;
  prec.inquire_sizes(m, n, nl, nu, ne, nf);
  CHECK(m == prec.m && n == prec.n && nl == prec.L_B.nnz() && nu == prec.U_B.nnz() && ne == prec.E.nnz() && nf == prec.F.nnz(), "inquired sizes differ at level " << lvl);
  CS L, U, E, F;
  size_t nm = n - m;
  auto prep = [](CS &A, size_t r, size_t c, size_t nz) {
    A.resize(r, c);
    A.ind_start().resize((CS::ROW_MAJOR ? r : c) + 1), A.inds().resize(nz + 1), A.vals().resize(nz + 1);
    for (auto &x : A.ind_start()) x = 0;
  };
  prep(L, m, m, nl), prep(U, m, m, nu), prep(E, nm, m, ne), prep(F, m, nm, nf);
  std::vector<int> p(n), pi(n), q(n), qi(n);
  std::vector<V>   d(m + 1);
  std::vector<R>   s(n), t(n);
  prec.template export_sparse_data<CS>(L.ind_start().data(), L.inds().data(), L.vals().data(), d.data(), U.ind_start().data(), U.inds().data(), U.vals().data(), E.ind_start().data(), E.inds().data(), E.vals().data(), F.ind_start().data(), F.inds().data(), F.vals().data(), s.data(), t.data(), p.data(), pi.data(), q.data(), qi.data());
  CHECK(dense_cs(L, m, m).a == dense_cs(prec.L_B, m, m).a, "exported L differs at level " << lvl);
  CHECK(dense_cs(U, m, m).a == dense_cs(prec.U_B, m, m).a, "exported U differs at level " << lvl);
  if (m && nm) CHECK(dense_cs(E, nm, m).a == dense_cs(prec.E, nm, m).a && dense_cs(F, m, nm).a == dense_cs(prec.F, m, nm).a, "exported E or F differs at level " << lvl);
  for (size_t i = 0; i < m; ++i) CHECK(biteq(d[i], prec.d_B[i]), "exported diagonal differs");
  for (size_t i = 0; i < n; ++i) CHECK(s[i] == prec.s[i] && t[i] == prec.t[i] && p[i] == prec.p[i] && pi[i] == prec.p_inv[i] && q[i] == prec.q[i] && qi[i] == prec.q_inv[i], "exported scaling or permutation differs");
}
static void body(Src &src, Ctx &ctx, bool sing) {
  bool     exact = src.chance(1, 3);
  FactCase c     = gen_fact(src, ctx, src.chance(1, 30) ? 90 : 26, exact);
  if (sing && !c.m0) {
    size_t n = c.g.n, a = src.below(n), b = src.below(n);
    for (int rep = src.below(3); rep >= 0; --rep, a = src.below(n), b = src.below(n)) {
      if (c.p.is_symm) {  // empty row and column
        for (size_t i = 0; i < n; ++i) {
          auto &r = c.g.r[i];
          if (i == a) r.clear();
          r.erase(std::remove_if(r.begin(), r.end(), [&](const std::pair<int, V> &e) { return e.first == (int)a; }), r.end());
        }
      } else if (a != b) c.g.r[a] = c.g.r[b];
      else c.g.r[a].clear();
    }
    ctx.desc << " made singular: ";
    c.g.describe(ctx.desc);
  }
  size_t      n = c.g.n;
  hif::HIF<V> M;
  do_factorize(M, c);
  CHECK(!M.empty(), "empty after factorize");
  const auto &P = M.precs();
  CHECK(M.nrows() == n && M.ncols() == n, "reported size " << M.nrows() << "x" << M.ncols());
  size_t cur = n, lvl = 0, nnz = 0, nef = 0, defer = 0;
  for (auto it = P.cbegin(); it != P.cend(); ++it, ++lvl) {
    const auto &p = *it;
    CHECK(p.n == cur, "level " << lvl << " has size " << p.n << ", the previous one left " << cur);
    CHECK(p.m <= p.n, "leading block larger than the level");
    bool last = std::next(it) == P.cend();
    CHECK(p.is_last_level() == last, "level " << lvl << " of " << P.size() << ": last level flag " << p.is_last_level());
    check_block(p.L_B, p.m, p.m, 1, "L", lvl);
    check_block(p.U_B, p.m, p.m, 2, "U", lvl);
    if (p.n > p.m && p.m) {
      check_block(p.E, p.n - p.m, p.m, 0, "E", lvl);
      check_block(p.F, p.m, p.n - p.m, 0, "F", lvl);
    }
    CHECK(p.d_B.size() >= p.m, "diagonal too short");
    for (size_t i = 0; i < p.m; ++i) CHECK(finite_(up(p.d_B[i])) && std::abs(p.d_B[i]) > 0, "diagonal entry " << i << " of level " << lvl << " is " << p.d_B[i]);
    CHECK(p.s.size() == p.n && p.t.size() == p.n, "scaling length");
    for (size_t i = 0; i < p.n; ++i) CHECK(p.s[i] > 0 && p.t[i] > 0 && std::isfinite(p.s[i]) && std::isfinite(p.t[i]), "scaling factor " << i << " of level " << lvl << " is " << p.s[i] << "," << p.t[i]);
    check_perm(p.p, p.p_inv, p.n, "row permutation", lvl);
    check_perm(p.q, p.q_inv, p.n, "column permutation", lvl);
    size_t nm = p.n - p.m;
    if (last && nm) {
      CHECK(p.dense_solver.empty() != p.symm_dense_solver.empty(), "the last level needs exactly one dense block");
      size_t dn = !p.dense_solver.empty() ? p.dense_solver.mat().nrows() : p.symm_dense_solver.mat().nrows();
      size_t dc = !p.dense_solver.empty() ? p.dense_solver.mat().ncols() : p.symm_dense_solver.mat().ncols();
      CHECK(dn == nm && dc == nm, "dense block " << dn << "x" << dc << ", expected " << nm);
      CHECK(p.last_rank() <= nm, "rank above the size");
      if (c.p.is_symm) CHECK(p.dense_solver.empty(), "symmetric factorization with an unsymmetric dense block");
    }
    if (c.p.is_symm) {
      Mat L = dense_cs(p.L_B, p.m, p.m), U = dense_cs(p.U_B, p.m, p.m), E = dense_cs(p.E, nm, p.m), F = dense_cs(p.F, p.m, nm);
      CHECK(U.T().a == L.a, "symmetric factorization: U is not L transposed at level " << lvl);
      if (p.m && nm) CHECK(F.T().a == E.a, "symmetric factorization: F is not E transposed at level " << lvl);
      for (size_t i = 0; i < p.n; ++i) CHECK(p.p[i] == p.q[i] && p.s[i] == p.t[i], "symmetric factorization with different row and column permutation or scaling, level " << lvl);
    }
    if (lvl == 0 && p.m) {  // off-diagonal blocks are the scaled input
      Mat A = c.g.dense();
      for (int k = 0; k < 2; ++k) {
        Mat X_ = k ? dense_cs(p.F, p.m, nm) : dense_cs(p.E, nm, p.m);
        for (size_t i = 0; i < X_.m; ++i)
          for (size_t j = 0; j < X_.n; ++j) {
            size_t a = p.p[k ? i : i + p.m], b = p.q[k ? j + p.m : j];
            X      w = (LR)p.s[a] * A(a, b) * (LR)p.t[b];
            CHECK(std::abs(w - X_(i, j)) <= 8 * EPS * std::abs(w) + std::numeric_limits<R>::min(), (k ? "F" : "E") << "(" << i << "," << j << ") is not the scaled input entry");
          }
      }
    }
    nnz += p.L_B.nnz() + p.U_B.nnz() + p.m;
    if (nm) nef += p.E.nnz() + p.F.nnz();
    if (last && nm) nnz += nm * nm;
    defer += nm;
    cur = nm;
    CHECK(&M.prec(lvl) == &p, "prec(" << lvl << ") is not that level");
    auto &pm = const_cast<typename hif::HIF<V>::prec_type &>(p);
    src.chance(1, 2) ? check_export<hif::CRS<V, int>>(pm, lvl) : check_export<hif::CCS<V, int>>(pm, lvl);
  }
  bool   has_dense = cur > 0;
  size_t nm        = cur;
  CHECK(M.levels() == P.size() + (has_dense ? 1 : 0), "levels() is " << M.levels() << " with " << P.size() << " sparse levels and " << (has_dense ? "a" : "no") << " dense block");
  CHECK(M.nnz() == nnz + nef, "nnz() is " << M.nnz() << ", the factors have " << nnz + nef);
  CHECK(M.nnz_ef() == nef && M.nnz_ldu() == nnz, "nnz_ef/nnz_ldu " << M.nnz_ef() << "/" << M.nnz_ldu() << " expected " << nef << "/" << nnz);
  CHECK(M.schur_size() == nm, "schur_size() " << M.schur_size() << " expected " << nm);
  CHECK(M.schur_rank() == P.back().last_rank() && M.rank() == n - (nm - M.schur_rank()), "rank() " << M.rank() << " schur rank " << M.schur_rank());
  // deferrals
  ctx.desc << " stats";
  for (int k = 0; k < 6; ++k) ctx.desc << " " << M.stats(k);
  size_t base = defer;
  CHECK(M.stats(0) == base || (c.m0 && M.stats(0) == base - (n - c.m0)), "total deferrals " << M.stats(0) << ", the levels deferred " << base << (c.m0 ? " (with a symmetric leading block)" : ""));
  CHECK(M.stats(1) <= M.stats(0), "dynamic deferrals " << M.stats(1) << " above the total " << M.stats(0));
  CHECK(M.stats(2) + M.stats(3) == M.stats(1), "dynamic deferrals " << M.stats(1) << " are not diagonal " << M.stats(2) << " plus conditioning " << M.stats(3));
  CHECK(M.stats(5) <= M.stats(4), "space droppings above the total");
  if (exact) CHECK(M.stats(4) == 0, "entries dropped (" << M.stats(4) << ") although dropping is disabled");
  bool thrown = false;
  try { M.stats(6); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown, "statistic 6 does not exist but is answered");
  thrown = false;
  try { M.prec(P.size()); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown, "level " << P.size() << " does not exist but prec() answers");
  // the operators are the multilevel formula
  size_t r = 0;
  if (nm && src.chance(1, 4)) r = 1 + src.below(std::max<size_t>(1, M.schur_rank()));
  if (r > M.schur_rank()) r = 0;
  if (n <= 40) {
    LR G = IS_SINGLE ? 2000 : 1e5L;
    for (int mult = 0; mult < 2; ++mult)
      for (int tr = 0; tr < 2; ++tr) {
        RefOp ref = mult ? ref_forward(P.cbegin(), r, tr) : ref_inverse(P.cbegin(), r, tr);
        Mat   S   = columns(M, mult, tr, r);
        if (!allfinite(S)) { ctx.label("overflow"); continue; }
        LR w = bdist(S, ref.val, ref.bnd);
        CHECK(w <= G, (mult ? "multiply" : "solve") << (tr ? " transposed" : "") << " differs from the multilevel formula: " << (double)w << " eps*bound; levels " << M.levels() << " r=" << r);
      }
  }
  ctx.label("levels=" + std::to_string(M.levels()));
  if (M.schur_rank() != nm) ctx.label("truncated");
  if (M.stats(1)) ctx.label("dynamic deferral");
  if (M.stats(0) != M.stats(1)) ctx.label("static deferral");
  if (M.stats(4)) ctx.label("dropped");
  ctx.nontrivial(n >= 3 && c.g.nnz() > n && M.levels() >= 2);
}
PBT_PROP(factors, 6000, 150000) { body(src, ctx, false); }
PBT_PROP(factors_singular, 2000, 50000) { body(src, ctx, true); }
