// P17: preprocessing: matching with scaling (optimality certificate), deferral of bad diagonals, scaling helpers and
// reorderings (RCM, AMD), against independent computations.
#include "ref.hpp"
#include <functional>

namespace {
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline V val(Lcg &g, int kind, double range) {
  std::complex<LR> v;
  if (kind == 0) { double k = (double)(int)(1 + g.unit() * 3); v = k; }
  else if (kind == 1) v = g.unit() * 2 - 1;
  else v = std::pow(10., (g.unit() * 2 - 1) * range);
  if (g.next() & 1) v = -v;
  if (g.next() % 3 == 0) v *= std::complex<LR>(0.6, 0.8);
  V r = Down<V>::f(v);
  return r == V(0) ? V(1) : r;
}
// maximum cardinality matching (row of each column, -1 if none) on entries with nonzero values
inline size_t structural_rank(const Sp &A, size_t m0) {
  std::vector<int> mr(m0, -1);
  std::vector<char> seen;
  std::function<bool(size_t)> aug = [&](size_t i) {
    for (auto &e : A.r[i]) {
      if ((size_t)e.first >= m0 || e.second == V(0) || seen[e.first]) continue;
      seen[e.first] = 1;
      if (mr[e.first] < 0 || aug(mr[e.first])) { mr[e.first] = i; return true; }
    }
    return false;
  };
  size_t k = 0;
  for (size_t i = 0; i < m0; ++i) { seen.assign(m0, 0); if (aug(i)) ++k; }
  return k;
}
template <class A>
void bijection(const A &p, size_t n, const char *what) {
  CHECK(p.size() == n, what << " has length " << p.size() << " instead of " << n);
  std::vector<char> s(n, 0);
  for (size_t i = 0; i < n; ++i) {
    CHECK((long)p[i] >= 0 && (size_t)p[i] < n, what << "[" << i << "]=" << p[i] << " is out of range");
    CHECK(!s[p[i]], what << " takes " << p[i] << " twice");
    s[p[i]] = 1;
  }
}

template <class I, class P>
void match(Src &s, Ctx &ctx) {
  typedef hif::CCS<V, I, P> CC;
  typedef hif::CRS<V, I, P> CR;
  size_t n    = 1 + s.below(s.chance(1, 6) ? 40 : 12);
  int    kind = s.below(3);
  double range = IS_SINGLE ? 1.5 : s.pick({2, 5, 20});
  int    den = s.pick({10, 25, 50, 100});
  bool   sym = s.chance(2, 5);
  int    diag = s.below(4);  // 0 none forced, 1 full, 2 permuted, 3 random
  Lcg    g{s.below(1u << 30)};
  std::vector<std::vector<V>>    d(n, std::vector<V>(n, V(0)));
  std::vector<std::vector<char>> has(n, std::vector<char>(n, 0));
  std::vector<size_t> pm(n);
  std::iota(pm.begin(), pm.end(), 0);
  for (size_t i = n; i > 1; --i) std::swap(pm[i - 1], pm[g.next() % i]);
  bool zeros = s.chance(1, 8), tiny = s.chance(1, 4);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      bool f = g.unit() * 100 < den;
      if (diag == 1 && i == j) f = true;
      if (diag == 2 && pm[i] == j) f = true;
      if (diag == 3 && i == j) f = g.next() & 1;
      if (!f) continue;
      has[i][j] = 1;
      d[i][j] = val(g, kind, range);
      if (zeros && g.next() % 5 == 0) d[i][j] = V(0);
      if (tiny && i == j && g.next() % 2) d[i][j] *= V(EPS * 0.01);
    }
  if (sym)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < i; ++j) { has[i][j] = has[j][i]; d[i][j] = d[j][i]; }
  Sp A(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) if (has[i][j]) A.r[i].push_back({(int)j, d[i][j]});
  bool   symm = sym && s.chance(3, 4);
  size_t m0   = s.chance(1, 3) ? s.below(n + 1) : n;
  size_t level = 1 + s.below(2);
  hif::Options o = hif::get_default_options();
  o.verbose   = hif::VERBOSE_NONE;
  o.pre_scale = s.below(3);
  o.reorder   = s.pick({(int)hif::REORDER_OFF, (int)hif::REORDER_AUTO, (int)hif::REORDER_AMD, (int)hif::REORDER_RCM});
  if (s.chance(1, 4)) o.beta = s.pick({-1., 0.5, 10.});
  ctx.desc << (symm ? "symm " : "") << "n=" << n << " m0=" << m0 << " level=" << level << " pre_scale=" << o.pre_scale << " reorder=" << o.reorder << " beta=" << o.beta << " ";
  A.describe(ctx.desc);
  CR B = A.template crs<I, P>();
  CC C = A.template ccs<I, P>();
  const CR B0(B, true);
  const CC C0(C, true);
  hif::Array<R>        ss, tt;
  hif::BiPermMatrix<I> p, q, p1, q1;
  if (s.chance(1, 3)) { p.resize(n + 3); q.resize(n + 3); ss.resize(n + 2); tt.resize(n + 2); }  // reused from a larger level
  size_t m = symm ? hif::do_preprocessing<true>(C, B, m0, level, o, ss, tt, p, q) : hif::do_preprocessing<false>(C, B, m0, level, o, ss, tt, p, q);
  // inputs
  CHECK(B.nnz() == B0.nnz() && std::equal(B.col_ind().begin(), B.col_ind().end(), B0.col_ind().begin()) && std::equal(B.row_start().begin(), B.row_start().end(), B0.row_start().begin()) &&
            !std::memcmp(B.vals().data(), B0.vals().data(), B0.nnz() * sizeof(V)),
        "the row-wise input was changed");
  CHECK(C.nnz() == C0.nnz() && std::equal(C.row_ind().begin(), C.row_ind().end(), C0.row_ind().begin()) && std::equal(C.col_start().begin(), C.col_start().end(), C0.col_start().begin()) &&
            !std::memcmp(C.vals().data(), C0.vals().data(), C0.nnz() * sizeof(V)),
        "the column-wise input was changed");
  bijection(p, n, "p"); bijection(q, n, "q");
  CHECK(p.inv().size() == n && q.inv().size() == n, "inverse permutations have wrong lengths");
  for (size_t i = 0; i < n; ++i) CHECK((size_t)p.inv(p[i]) == i && (size_t)q.inv(q[i]) == i, "the inverse permutations are not inverse at " << i);
  CHECK(m <= m0, "leading block of " << m << " for " << m0);
  CHECK(ss.size() == n && tt.size() == n, "scalings of length " << ss.size() << " and " << tt.size());
  LR L = 0, L0 = 0;
  for (size_t i = 0; i < n; ++i) {
    CHECK(ss[i] > 0 && std::isfinite(ss[i]) && tt[i] > 0 && std::isfinite(tt[i]), "scaling " << i << " is " << ss[i] << " and " << tt[i]);
    L = std::max({L, std::abs(std::log((LR)ss[i])), std::abs(std::log((LR)tt[i]))});
    for (auto &e : A.r[i]) if (e.second != V(0)) L0 = std::max(L0, std::abs(std::log((LR)std::abs(up(e.second)))));
  }
  for (size_t i = m0; i < n; ++i) CHECK((size_t)p[i] == i && (size_t)q[i] == i && ss[i] == 1 && tt[i] == 1, "row " << i << " beyond the leading block was touched");
  // accepted and deferred pairs
  auto ent = [&](size_t i, size_t j) -> V { return d[i][j]; };
  std::vector<LR> rm(n, 0), cm(n, 0);
  for (size_t i = 0; i < n; ++i)
    for (auto &e : A.r[i]) { LR a = std::abs(up(e.second)); rm[i] = std::max(rm[i], a); cm[e.first] = std::max(cm[e.first], a); }
  size_t unclear = 0;
  auto   good = [&](size_t k) -> int {  // 1 good, 0 bad, 2 within rounding
    LR a = std::abs(up(ent(p[k], q[k]))), t = std::max(rm[p[k]], cm[q[k]]) * EPS;
    if (t == 0 || a == 0) return 0;
    return std::abs(a - t) <= 8 * EPS * t ? (++unclear, 2) : a > t ? 1 : 0;
  };
  for (size_t k = 0; k < m0; ++k) {
    int gd = good(k);
    if (gd == 2) continue;
    CHECK(gd == (k < m), "pair (" << p[k] << "," << q[k] << ") of value " << ent(p[k], q[k]) << " at position " << k << " is " << (k < m ? "accepted" : "deferred"));
  }
  // scaling
  bool   nonsing = m0 && structural_rank(A, m0) == m0;
  LR     tol     = 64 * EPS * (m0 + 4) * (4 + L + L0);
  auto   sc      = [&](size_t i, size_t j) -> LR { return std::abs(up(ent(i, j))) * (LR)ss[i] * (LR)tt[j]; };
  bool   fixable = level > 1 && (o.beta < 0 || o.beta > 1);
  LR     lim     = IS_SINGLE ? 60 : 600;
  if (nonsing && 2 * L0 * m0 < lim && !(zeros && o.pre_scale)) {
    if (!symm)
      for (size_t k = 0; k < m0; ++k) {
        LR v = sc(p[k], q[k]);
        CHECK(v >= 1 - tol && v <= 1 + tol, "scaled matched entry (" << p[k] << "," << q[k] << ") is " << v << " (tolerance " << tol << ")");
      }
    if (!fixable) {
      std::vector<LR> srm(m0, 0), scm(m0, 0);
      for (size_t i = 0; i < m0; ++i)
        for (size_t j = 0; j < m0; ++j) {
          LR v = sc(i, j);
          CHECK(v <= 1 + tol, "scaled entry (" << i << "," << j << ") is " << v << " (tolerance " << tol << ")");
          srm[i] = std::max(srm[i], v); scm[j] = std::max(scm[j], v);
        }
      for (size_t i = 0; i < m0; ++i) CHECK(srm[i] >= 1 - tol && scm[i] >= 1 - tol, "largest scaled entry of row and column " << i << " is " << srm[i] << " and " << scm[i]);
    }
    ctx.label("nonsingular");
    if (m0 > 2) ctx.nontrivial();
  } else
    ctx.label("singular or extreme");
  if (symm)
    for (size_t i = 0; i < n; ++i) CHECK(biteq(ss[i], tt[i]) || fixable, "symmetric scaling differs at " << i);
  if (symm)
    for (size_t i = 0; i < n; ++i) CHECK(p[i] == q[i], "symmetric permutation differs at " << i);
  // badly balanced pairs are balanced, and others left alone
  if (!symm) {
    hif::Options         o2 = o;
    hif::Array<R>        s2, t2;
    hif::BiPermMatrix<I> p2, q2;
    o2.beta = 0.5;
    hif::do_preprocessing<false>(C, B, m0, level, o2, s2, t2, p2, q2);
    LR b0 = o.beta < 0 ? 1e3 : o.beta;
    for (size_t k = 0; k < m0; ++k) {
      size_t i = p[k], j = q[k];
      LR     a = s2[i], b = t2[j], lo = std::min(a, b), hi = std::max(a, b), w = 64 * EPS;
      bool   both = biteq(ss[i], s2[i]) && biteq(tt[j], t2[j]);
      LR     gm   = std::sqrt(a) * std::sqrt(b);
      bool   even = biteq(ss[i], tt[j]) && std::abs((LR)ss[i] - gm) <= w * gm;
      if (!fixable) CHECK(both, "scalings " << ss[i] << "," << tt[j] << " of pair " << k << " were balanced without being asked to");
      else if (lo * b0 < hi * (1 - w)) { CHECK(even, "scalings " << ss[i] << "," << tt[j] << " of pair " << k << " are beyond beta=" << b0 << " apart"); ctx.label("balanced"); }
      else if (lo * b0 > hi * (1 + w)) CHECK(both, "scalings " << s2[i] << "," << t2[j] << " of pair " << k << " were changed to " << ss[i] << "," << tt[j]);
      else CHECK(both || even, "scalings of pair " << k);
    }
  }
  // reordering only reorders the accepted pairs
  hif::Options  o1 = o;
  hif::Array<R> s1, t1;
  o1.reorder = hif::REORDER_OFF;
  size_t m1  = symm ? hif::do_preprocessing<true>(C, B, m0, level, o1, s1, t1, p1, q1) : hif::do_preprocessing<false>(C, B, m0, level, o1, s1, t1, p1, q1);
  CHECK(m1 == m, "leading block " << m << " with and " << m1 << " without reordering");
  for (size_t i = 0; i < n; ++i) CHECK(biteq(s1[i], ss[i]) && biteq(t1[i], tt[i]), "the scaling depends on the reordering");
  std::set<std::pair<long, long>> x, y;
  for (size_t i = 0; i < m; ++i) { x.insert({p[i], q[i]}); y.insert({p1[i], q1[i]}); }
  CHECK(x == y, "the accepted pairs depend on the reordering");
  for (size_t i = m; i < n; ++i) CHECK(p[i] == p1[i] && q[i] == q1[i], "reordering touched the deferred rows");
  ctx.label("reorder" + std::to_string(o.reorder));
  if (m < m0) ctx.label("deferrals");
}

// ---- scaling helpers
template <class I, class P>
void scaling(Src &s, Ctx &ctx) {
  typedef hif::CRS<V, I, P> CR;
  size_t n = 1 + s.below(14);
  int    kind = s.below(3), den = s.pick({15, 40, 100}), fn = s.below(3);
  bool   sym = s.chance(1, 2), fort = s.chance(1, 2), zeros = s.chance(1, 6);
  Lcg    g{s.below(1u << 30)};
  double range = IS_SINGLE ? 4 : 30;
  std::vector<std::vector<V>> d(n, std::vector<V>(n, V(0)));
  std::vector<std::vector<char>> has(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = sym ? i : 0; j < n; ++j) {
      if (g.unit() * 100 >= den) continue;
      V v = zeros && g.next() % 4 == 0 ? V(0) : val(g, kind, range);
      d[i][j] = v; has[i][j] = 1;
      if (sym) { d[j][i] = v; has[j][i] = 1; }
    }
  Sp A(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) if (has[i][j]) A.r[i].push_back({(int)j, d[i][j]});
  CR            B = A.template crs<I, P>();
  hif::Array<R> r(n, R(-3)), c(n, R(-3));
  size_t        iters = s.chance(1, 2) ? 60 : 1 + s.below(5);
  ctx.desc << "fn" << fn << (sym ? " symm" : "") << " iters=" << iters << " ";
  A.describe(ctx.desc);
  switch (fn) {
    case 0: hif::scale_eye(B, r, c, fort); break;
    case 1: sym ? hif::scale_extreme_values<true>(B, r, c, fort) : hif::scale_extreme_values<false>(B, r, c, fort); break;
    default: sym ? hif::iterative_scale<true>(B, r, c, 1e-10, iters, fort) : hif::iterative_scale<false>(B, r, c, 1e-10, iters, fort);
  }
  std::vector<LR> rm(n, 0), cm(n, 0);
  CHECK(B.nrows() == n && B.nnz() == A.nnz(), "the matrix changed");
  const int sh = fort ? 1 : 0;
  size_t    k  = 0;
  CHECK((long)B.row_start()[0] == sh, "row pointers start with " << B.row_start()[0]);
  for (size_t i = 0; i < n; ++i) {
    CHECK(r[i] > 0 && std::isfinite(r[i]) && c[i] > 0 && std::isfinite(c[i]), "scaling " << i << " is " << r[i] << " and " << c[i]);
    if (fn == 0) CHECK(r[i] == 1 && c[i] == 1, "scaling " << i << " is not one");
    for (auto &e : A.r[i]) {
      CHECK((long)B.col_ind()[k] == e.first + sh, "index " << B.col_ind()[k] << " instead of " << e.first + sh);
      X  v = up(e.second) * (LR)r[i] * (LR)c[e.first];
      LR a = std::abs(v);
      CHECK(std::abs(up(B.vals()[k]) - v) <= (8 + 8 * iters) * EPS * a + 4 * std::numeric_limits<R>::min(), "scaled value " << B.vals()[k] << " is not that of the scalings " << a);
      rm[i] = std::max(rm[i], a); cm[e.first] = std::max(cm[e.first], a);
      ++k;
    }
    CHECK((size_t)B.row_start()[i + 1] == k + sh, "row pointer " << i + 1);
  }
  for (size_t i = 0; i < n; ++i) {
    if (fn == 1 && !sym) {
      CHECK(rm[i] <= 1 + 16 * EPS, "largest entry of row " << i << " is " << rm[i]);
      if (cm[i] > 0) CHECK(std::abs(cm[i] - 1) <= 16 * EPS, "largest entry of column " << i << " is " << cm[i]);
    }
    if (fn == 2 && iters == 60) {
      LR t = std::max((LR)1e-8, 200 * EPS);
      if (rm[i] > 0) CHECK(std::abs(rm[i] - 1) <= t, "largest entry of row " << i << " is " << rm[i] << " after 60 iterations");
      if (cm[i] > 0) CHECK(std::abs(cm[i] - 1) <= t, "largest entry of column " << i << " is " << cm[i] << " after 60 iterations");
    }
  }
  ctx.label("fn" + std::to_string(fn));
  if (n > 2 && A.nnz() > n && fn) ctx.nontrivial();
}

// ---- reorderings
typedef std::vector<std::set<size_t>> Graph;
inline size_t fill_of(const Graph &G0, const std::vector<size_t> &ord) {
  Graph             G = G0;
  size_t            fill = 0;
  std::vector<char> done(G.size(), 0);
  for (size_t v : ord) {
    std::vector<size_t> nb;
    for (size_t w : G[v]) if (!done[w]) nb.push_back(w);
    for (size_t a = 0; a < nb.size(); ++a)
      for (size_t b = a + 1; b < nb.size(); ++b)
        if (G[nb[a]].insert(nb[b]).second) { G[nb[b]].insert(nb[a]); ++fill; }
    done[v] = 1;
  }
  return fill;
}
template <class I, class P>
void order(Src &s, Ctx &ctx) {
  typedef hif::CCS<V, I, P> CC;
  size_t n = 1 + s.below(s.chance(1, 8) ? 120 : 16);
  int    type = s.below(6), dg = s.below(3);
  Lcg    g{s.below(1u << 30)};
  Graph  G(n);
  bool   forest = false;
  std::vector<size_t> lab(n);
  std::iota(lab.begin(), lab.end(), 0);
  for (size_t i = n; i > 1; --i) std::swap(lab[i - 1], lab[g.next() % i]);
  auto edge = [&](size_t a, size_t b) { if (a != b) { G[lab[a]].insert(lab[b]); G[lab[b]].insert(lab[a]); } };
  switch (type) {
    case 0: forest = true; for (size_t i = 1; i < n; ++i) if (g.next() % 8) edge(i, g.next() % i); break;        // random forest
    case 1: forest = true; for (size_t i = 1; i < n; ++i) edge(i, i - 1); break;                                 // path
    case 2: { size_t w = 1; while ((w + 1) * (w + 1) <= n) ++w; for (size_t i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) edge(i, i + 1); if (i + w < n) edge(i, i + w); } break; }
    case 3: for (size_t k = 0; k < 2 * n; ++k) edge(g.next() % n, g.next() % n); break;
    case 4: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (g.next() % 2) edge(i, j); break;
    default: forest = true; for (size_t i = 1; i < n; ++i) edge(0, i);                                           // star
  }
  CC B(n, n);
  B.col_start().resize(n + 1);
  B.col_start()[0] = 0;
  for (size_t j = 0; j < n; ++j) {
    std::set<size_t> c = G[j];
    if (dg == 1 || (dg == 2 && (g.next() & 1))) c.insert(j);
    for (size_t i : c) B.row_ind().push_back((I)i);
    B.col_start()[j + 1] = B.row_ind().size();
  }
  B.vals().resize(B.row_ind().size());
  ctx.desc << "type=" << type << " n=" << n << " diag=" << dg << " edges=" << (B.row_ind().size()) << " sizes " << sizeof(I) << "x" << sizeof(P);
  hif::Options o = hif::get_default_options();
  o.verbose = hif::VERBOSE_NONE;
  CC B1(B, true), B2(B, true);
  {
    hif::Array<P> pr = hif::run_rcm(B1, o);
    bijection(pr, n, "RCM");
    // components are contiguous; each is a reversed Cuthill-McKee ordering
    std::vector<int>    comp(n, -1);
    std::vector<size_t> size;
    for (size_t i = 0; i < n; ++i) {
      if (comp[i] >= 0) continue;
      std::vector<size_t> st{i};
      comp[i] = size.size(); size.push_back(0);
      while (st.size()) { size_t v = st.back(); st.pop_back(); ++size.back(); for (size_t w : G[v]) if (comp[w] < 0) { comp[w] = comp[v]; st.push_back(w); } }
    }
    for (size_t b = 0; b < n;) {
      size_t c = comp[pr[b]], e = b + size[c];
      for (size_t k = b; k < e; ++k) CHECK(comp[pr[k]] == (int)c, "RCM mixes components at position " << k);
      std::vector<size_t> pos(n, n), par;
      std::vector<size_t> seq;
      for (size_t k = e; k > b; --k) { pos[pr[k - 1]] = seq.size(); seq.push_back(pr[k - 1]); }
      par.assign(seq.size(), n);
      for (size_t k = 1; k < seq.size(); ++k) {
        for (size_t w : G[seq[k]]) par[k] = std::min(par[k], pos[w]);
        CHECK(par[k] < k, "RCM node " << seq[k] << " is not next to an earlier one");
        if (k > 1) {
          CHECK(par[k] >= par[k - 1], "RCM is not breadth first at node " << seq[k]);
          if (par[k] == par[k - 1] && dg != 2) CHECK(G[seq[k]].size() >= G[seq[k - 1]].size(), "RCM neighbours are not by degree at node " << seq[k]);
        }
      }
      b = e;
    }
    if (type == 1)
      for (size_t k = 1; k < n; ++k) CHECK(G[pr[k]].count(pr[k - 1]), "RCM of a path does not follow it");
  }
  if (B.row_ind().size()) {
    const bool    tr = s.chance(1, 2);
    hif::Array<P> pa = tr ? hif::run_amd<true>(B2, o) : hif::run_amd<false>(B2, o);
    bijection(pa, n, "AMD");
    CHECK(std::equal(B2.row_ind().begin(), B2.row_ind().end(), B.row_ind().begin()) && std::equal(B2.col_start().begin(), B2.col_start().end(), B.col_start().begin()), "AMD changed its input");
    if (forest && n <= 16) {
      std::vector<size_t> ord(n);
      for (size_t i = 0; i < n; ++i) ord[i] = pa[i];
      size_t f = fill_of(G, ord);
      CHECK(f == 0, "AMD produces " << f << " fill entries for a forest");
    }
  }
  {  // unsymmetric patterns
    CC  U(n, n);
    int den = s.pick({5, 30, 90});
    U.col_start().resize(n + 1);
    U.col_start()[0] = 0;
    for (size_t j = 0; j < n; ++j) {
      for (size_t i = 0; i < n; ++i) if (g.unit() * 100 < den) U.row_ind().push_back((I)i);
      U.col_start()[j + 1] = U.row_ind().size();
    }
    U.vals().resize(U.row_ind().size());
    if (U.row_ind().size() == 0) return;
    hif::Array<P> pa = hif::run_amd<false>(U, o);
    bijection(pa, n, "AMD of an unsymmetric pattern");
  }
  ctx.label("type" + std::to_string(type));
  if (n > 3 && B.row_ind().size() > n) ctx.nontrivial();
}
}  // namespace

PBT_PROP(match, 25000, 1000000) {
  switch (src.below(3)) {
    case 0: match<int, std::ptrdiff_t>(src, ctx); break;
    case 1: match<int, int>(src, ctx); break;
    default: match<std::int64_t, std::ptrdiff_t>(src, ctx);
  }
}
PBT_PROP(scaling, 20000, 800000) {
  switch (src.below(3)) {
    case 0: scaling<int, std::ptrdiff_t>(src, ctx); break;
    case 1: scaling<int, int>(src, ctx); break;
    default: scaling<std::int64_t, std::ptrdiff_t>(src, ctx);
  }
}
PBT_PROP(order, 12000, 500000) {
  switch (src.below(3)) {
    case 0: order<int, std::ptrdiff_t>(src, ctx); break;
    case 1: order<int, int>(src, ctx); break;
    default: order<std::int64_t, std::ptrdiff_t>(src, ctx);
  }
}
