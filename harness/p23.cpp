// P23: documented build configurations keep the guarantees. The library is compiled once per configuration (own
// namespace each) and every configuration gets the same problem.
#include "fact.hpp"
#include "p23_iface.hpp"
#define CFG(n) P23Obs P23_NAME(n)(const P23Case &);
CFG(base) CFG(debug) CFG(tight) CFG(alpha) CFG(nodrop) CFG(keep) CFG(high) CFG(lu)
#undef CFG
#define RUN(n, c) P23_NAME(n)(c)
namespace {
typedef std::vector<long double> Ob;
inline P23Num num(const V &v) { return P23Num((double)std::real(up(v)), (double)std::imag(up(v))); }
inline P23Case make(const FactCase &c, Src &s) {
  P23Case k;
  k.n = c.g.n, k.m0 = c.m0, k.ccs = c.via;
  auto fill = [&](const auto &A) {
    for (size_t i = 0; i < A.ind_start().size(); ++i) k.ptr.push_back(A.ind_start()[i]);
    for (size_t i = 0; i < (size_t)k.ptr.back(); ++i) k.ind.push_back(A.inds()[i]), k.vals.push_back(num(A.vals()[i]));
  };
  if (c.via) { auto A = c.g.ccs<>(); fill(A); }
  else { auto A = c.g.crs<>(); fill(A); }
  k.params.assign((const unsigned char *)&c.p, (const unsigned char *)&c.p + sizeof c.p);
  auto b = gen_arr(s, k.n);
  for (size_t i = 0; i < k.n; ++i) k.b.push_back(num(b[i]));
  k.N        = s.pick({3, 1, 2, 6});
  k.betas[0] = s.pick({1e-8, 1e-3, 0.0});
  k.betas[1] = s.pick({1e8, 1.0});
  return k;
}
inline void with(P23Case &k, const hif::Params &p) { k.params.assign((const unsigned char *)&p, (const unsigned char *)&p + sizeof p); }
inline const Ob *find(const P23Obs &o, const std::string &n) {
  for (auto &e : o)
    if (e.first == n) return &e.second;
  return nullptr;
}
inline bool same(long double a, long double b) { return a == b || (a != a && b != b); }
inline bool is_apply(const std::string &n) { return n.find("level") && n != "counts" && n != "stats" && n != "rejected"; }
// every observation equal, optionally only those on the factorization
inline void equal(const char *cfg, const P23Obs &a, const P23Obs &b, bool factors_only = false, const char *skip = nullptr) {
  std::vector<size_t> ia, ib;
  for (size_t i = 0; i < a.size(); ++i) if (!factors_only || !is_apply(a[i].first)) ia.push_back(i);
  for (size_t i = 0; i < b.size(); ++i) if (!factors_only || !is_apply(b[i].first)) ib.push_back(i);
  for (size_t k = 0; k < ia.size() && k < ib.size(); ++k) {
    auto &x = a[ia[k]];
    auto &y = b[ib[k]];
    CHECK(x.first == y.first, cfg << ": the default build gives \"" << x.first << "\" where this build gives \"" << y.first << "\"");
    if (skip && x.first == skip) continue;
    CHECK(x.second.size() == y.second.size(), cfg << ": " << x.first << " has " << y.second.size() << " entries instead of " << x.second.size());
    for (size_t i = 0; i < x.second.size(); ++i)
      CHECK(same(x.second[i], y.second[i]), cfg << ": " << x.first << "[" << i << "] is " << (double)y.second[i] << " but " << (double)x.second[i] << " in the default build");
  }
  CHECK(ia.size() == ib.size(), cfg << ": " << ib.size() << " observations instead of " << ia.size());
}
inline void nontriv(Ctx &ctx, const P23Obs &o, size_t n) {
  if (find(o, "rejected") || find(o, "failed")) { ctx.label("rejected"); return; }
  auto &k = *find(o, "counts");
  ctx.label("levels=" + std::to_string((int)k[0]));
  ctx.nontrivial(n >= 3 && k[1] > n);
}
inline Vec vecof(const Ob &o) {
  Vec x;
  for (size_t i = 0; i < o.size(); i += IS_CPLX ? 2 : 1) {
#if VT >= 2
    x.push_back(X(o[i], o[i + 1]));
#else
    x.push_back(X(o[i]));
#endif
  }
  return x;
}
}  // namespace
// checking of internal assumptions and sizes of memory reserves do not change a result
PBT_PROP(transparent, 1500, 40000) {
  FactCase c = gen_fact(src, ctx, src.chance(1, 6) ? 60 : 24, src.chance(1, 4));
  P23Case  k = make(c, src);
  P23Obs   o = RUN(base, k);
  equal("HIF_DEBUG", o, RUN(debug, k));
  equal("HIF_RESERVE_FAC=1", o, RUN(tight, k));
  equal("HIF_RESERVE_FAC=0", o, RUN(alpha, k));
  nontriv(ctx, o, k.n);
}
// without space dropping the fill factors lose their meaning: the same as an unbounded one
PBT_PROP(no_space_drop, 1500, 40000) {
  FactCase    c = gen_fact(src, ctx, 24, src.chance(1, 6));
  P23Case     k = make(c, src);
  hif::Params p = c.p;
  p.alpha_L = p.alpha_U = 1e4;
  P23Case big           = k;
  with(big, p);
  P23Obs o = RUN(base, big), u = RUN(nodrop, k);
  equal("HIF_DISABLE_SPACE_DROP, HIF_NO_DROP_LE_UF", o, u);
  equal("HIF_NO_DROP_LE_UF with unbounded fill", o, RUN(keep, big));
  // with the given fill factor, keeping the operands of the Schur complement leaves the first level as it is
  P23Obs d = RUN(base, k), e = RUN(keep, k);
  CHECK(!find(d, "rejected") == !find(e, "rejected"), "HIF_NO_DROP_LE_UF decides whether the matrix is rejected");
  for (auto &x : d) {
    if (x.first.find("level 1 ")) continue;
    auto y = find(e, x.first);
    CHECK(y && y->size() == x.second.size(), "HIF_NO_DROP_LE_UF: another size of " << x.first);
    for (size_t i = 0; i < y->size(); ++i) CHECK(same((*y)[i], x.second[i]), "HIF_NO_DROP_LE_UF: " << x.first << "[" << i << "] is " << (double)(*y)[i] << " instead of " << (double)x.second[i]);
  }
  nontriv(ctx, o, k.n);
  if (find(d, "stats") && find(o, "stats") && *find(d, "stats") != *find(o, "stats")) ctx.label("fill factor binds");
}
// solves in higher precision: same factors, and as accurate as the higher precision where nothing is kept in the lower one
PBT_PROP(high_precision, 1200, 30000) {
  FactCase c = gen_fact(src, ctx, 20, src.chance(1, 4));
  P23Case  k = make(c, src);
  P23Obs   o = RUN(base, k), u = RUN(high, k);
  equal("HIF_HIGH_PRECISION_SOLVE", o, u, true);
  CHECK(!find(o, "failed") == !find(u, "failed"), "HIF_HIGH_PRECISION_SOLVE: solves fail in one build only");
  if (find(o, "rejected") || find(o, "failed")) { ctx.label("rejected"); return; }
  hif::HIF<V> M;
  do_factorize(M, c);
  bool dense = M.schur_size() > 0;
  if (M.schur_rank() < M.schur_size()) { ctx.label("deficient"); return; }
  LR hp = IS_SINGLE ? std::numeric_limits<double>::epsilon() : std::numeric_limits<long double>::epsilon();
  LR worst = 0, sz = 0;
  for (int tr = 0; tr < 2; ++tr) {
    RefOp inv = ref_inverse(M.precs().cbegin(), 0, tr);
    Vec   b;
    for (auto &x : k.b) {
#if VT >= 2
      b.push_back(X(x.first, x.second));
#else
      b.push_back(X(x.first));
#endif
    }
    Vec  ref = inv.val * b, ab = absmul(inv.bnd, b);
    auto judge = [&](const char *name, LR out, bool wide) {
      // scaled vectors and results of inner levels are passed on in the type of the vectors, and the library's products
      // of complex numbers of two precisions take the type of the left factor
      bool strict = !dense && wide && VT == 1;
      if (strict) ctx.label("strict");
      Vec x = vecof(*find(u, name));
      for (size_t i = 0; i < k.n; ++i) {
        LR d = std::abs(x[i] - ref[i]), bd = !strict ? (IS_SINGLE ? 200 : 1000) * EPS * std::real(ab[i]) : 4 * out * std::abs(ref[i]) + 200 * hp * std::real(ab[i]) + 2 * std::numeric_limits<R>::min();
        if (!(bd < std::numeric_limits<R>::max() / 8)) { ctx.label("overflow"); continue; }
        CHECK(d <= bd, "HIF_HIGH_PRECISION_SOLVE: entry " << i << " of " << name << " is " << (double)std::abs(x[i]) << " instead of " << (double)std::abs(ref[i]) << " (difference " << (double)d << ", allowed " << (double)bd << ")");
        worst = std::max(worst, bd), sz = std::max(sz, std::abs(ref[i]));
      }
    };
    judge(tr ? "solve transposed" : "solve", EPS, false);
    if (!tr) judge("solve wide", std::numeric_limits<double>::epsilon(), true);
  }
  ctx.label(dense ? "dense block" : "no dense block");
  if (worst > 1e-3 * sz) ctx.label("illcond");
  else ctx.nontrivial(k.n >= 3);
}
// the last block by LU instead of rank revealing QR: same levels, and solves of regular problems agree
PBT_PROP(dense_lu, 1200, 30000) {
  FactCase c = gen_fact(src, ctx, 20, src.chance(1, 4));
  P23Case  k = make(c, src);
  P23Obs   o = RUN(base, k), u = RUN(lu, k);
  if (find(o, "rejected")) { equal("HIF_DENSE_MODE=0", o, u, true); ctx.label("rejected"); return; }
  hif::HIF<V> M;
  do_factorize(M, c);
  if (M.schur_rank() < M.schur_size()) {
    equal("HIF_DENSE_MODE=0", o, u, true, "counts");
    ctx.label("deficient");
    return;
  }
  equal("HIF_DENSE_MODE=0", o, u, true);
  CHECK(!find(o, "failed") && !find(u, "failed"), "HIF_DENSE_MODE=0: solves fail");
  bool ok = true;
  Vec  b, br(k.n), one(k.n, X(1));
  for (auto &x : k.b) {
#if VT >= 2
    b.push_back(X(x.first, x.second));
#else
    b.push_back(X(x.first));
#endif
  }
  for (size_t i = 0; i < k.n; ++i) br[i] = b[k.n - 1 - i];
  auto differ = [&](const char *name, const Vec &bound) {
    Vec x = vecof(*find(o, name)), y = vecof(*find(u, name));
    LR  mx = 0, sz = 0;
    for (auto &v : bound) mx = std::max(mx, std::real(v));
    for (auto &v : x) sz = std::max(sz, std::abs(v));
    LR bd = (IS_SINGLE ? 200 : 1000) * EPS * mx;
    if (!(bd < 1e-3 * sz)) { ok = false; return; }
    for (size_t i = 0; i < k.n; ++i) CHECK(std::abs(x[i] - y[i]) <= bd, "HIF_DENSE_MODE=0: entry " << i << " of " << name << " differs by " << (double)std::abs(x[i] - y[i]) << " (allowed " << (double)bd << ")");
  };
  for (int tr = 0; tr < 2; ++tr) {
    RefOp inv = ref_inverse(M.precs().cbegin(), 0, tr);
    Vec   ab  = absmul(inv.bnd, b);
    differ(tr ? "solve transposed" : "solve", ab);
    if (!tr) {
      differ("solve_mrhs 0", ab);
      differ("solve_mrhs 1", absmul(inv.bnd, br));
      differ("solve_mrhs 2", absmul(inv.bnd, one));
    }
    RefOp fw = ref_forward(M.precs().cbegin(), 0, tr);
    differ(tr ? "product transposed" : "product", absmul(fw.bnd, b));
  }
  ctx.label(M.schur_size() ? "dense block" : "no dense block");
  if (ok) ctx.nontrivial(k.n >= 3 && M.schur_size());
  else ctx.label("illcond");
}
