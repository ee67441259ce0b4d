// P06: results depend only on the current matrix and options, not on history or threads.
#include "fact.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
namespace {
typedef hif::HIF<V> H;
struct Out {
  bool           threw = false;
  std::vector<V> x;
  std::vector<long> extra;
};
inline std::string cmp(const Out &a, const Out &b) {
  std::ostringstream os;
  if (a.threw != b.threw) { os << "one of them " << (a.threw ? "(used object)" : "(fresh object)") << " threw"; return os.str(); }
  if (a.threw) return "";
  if (a.extra != b.extra) { os << "reported numbers differ"; for (auto v : a.extra) os << " " << v; os << " /"; for (auto v : b.extra) os << " " << v; return os.str(); }
  for (size_t i = 0; i < a.x.size(); ++i)
    if (!biteq(a.x[i], b.x[i])) { os << "entry " << i << ": " << a.x[i] << " vs " << b.x[i] << " on the fresh object"; return os.str(); }
  return "";
}
template <class A>
inline bool same_arrays(const A &a, const A &b) {
  return a.ind_start().size() == b.ind_start().size() && a.inds().size() == b.inds().size() && a.vals().size() == b.vals().size() &&
         !std::memcmp(a.ind_start().data(), b.ind_start().data(), sizeof(*a.ind_start().data()) * a.ind_start().size()) &&
         (!a.inds().size() || (!std::memcmp(a.inds().data(), b.inds().data(), sizeof(*a.inds().data()) * a.inds().size()) &&
         !std::memcmp(a.vals().data(), b.vals().data(), sizeof(V) * a.vals().size())));
}
// factorize and check that nothing handed in was modified
inline bool fact_checked(H &M, const FactCase &c, hif::Params p) {
  hif::Params p0 = p;
  bool        threw = false;
  if (c.via) {
    auto A = c.g.ccs<>();
    auto B = c.g.ccs<>();
    try { M.factorize(A, p, c.m0); } catch (const std::exception &) { threw = true; }
    CHECK(same_arrays(A, B), "factorize modified its input matrix");
  } else {
    auto A = c.g.crs<>();
    auto B = c.g.crs<>();
    try { M.factorize(A, p, c.m0); } catch (const std::exception &) { threw = true; }
    CHECK(same_arrays(A, B), "factorize modified its input matrix");
  }
  CHECK(!std::memcmp(&p, &p0, sizeof p), "factorize modified the options");
  return !threw;
}
struct Op {
  int    kind;
  bool   trans;
  size_t r, N;
  std::vector<V> b;
  double betas[2];
  V      junk;
};
template <size_t N>
inline void mrhs(const H &M, const Op &o, Out &out) {
  size_t n = M.nrows();
  hif::Array<std::array<V, N>> b(n), x(n);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < N; ++k) b[i][k] = o.b[(i * (k + 1) + k) % n], x[i][k] = o.junk;
  auto c = hif::Array<std::array<V, N>>(n);
  for (size_t i = 0; i < n; ++i) c[i] = b[i];
  M.solve_mrhs(b, x, o.r);
  CHECK(!std::memcmp(b.data(), c.data(), n * sizeof(b[0])), "right-hand sides modified by solve_mrhs");
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < N; ++k) out.x.push_back(x[i][k]);
}
inline Out apply(const H &M, const FactCase &c, const Op &o) {
  Out    out;
  size_t n = M.nrows();
  hif::Array<V> b(n), x(n);
  for (size_t i = 0; i < n; ++i) b[i] = o.b[i], x[i] = o.junk;
  try {
    switch (o.kind) {
      case 0: M.solve(b, x, o.trans, o.r); break;
      case 1: M.mmultiply(b, x, o.trans, o.r); break;
      case 2: o.N == 1 ? mrhs<1>(M, o, out) : o.N == 2 ? mrhs<2>(M, o, out) : mrhs<5>(M, o, out); return out;
      case 3:
      case 4: {
        std::pair<size_t, int> f{0, 0};
        bool                   same = true;
        if (c.via) {
          auto A = c.g.ccs<>(), B = c.g.ccs<>();
          if (o.kind == 3) M.hifir(A, b, o.N, x, o.trans, o.r ? o.r : size_t(-1));
          else f = M.hifir(A, b, o.N, o.betas, x, o.trans, o.r ? o.r : size_t(-1));
          same = same_arrays(A, B);
        } else {
          auto A = c.g.crs<>(), B = c.g.crs<>();
          if (o.kind == 3) M.hifir(A, b, o.N, x, o.trans, o.r ? o.r : size_t(-1));
          else f = M.hifir(A, b, o.N, o.betas, x, o.trans, o.r ? o.r : size_t(-1));
          same = same_arrays(A, B);
        }
        CHECK(same, "refinement modified the matrix");
        out.extra = {(long)f.first, (long)f.second};
        break;
      }
      default: {
        for (size_t i = 0; i < n; ++i) x[i] = V(0);
        out.extra = {(long)M.levels(), (long)M.nnz(), (long)M.nnz_ef(), (long)M.nnz_ldu(), (long)M.rank(), (long)M.schur_rank(), (long)M.schur_size(), (long)M.nrows(), (long)M.ncols()};
        for (int k = 0; k < 6; ++k) out.extra.push_back((long)M.stats(k));
      }
    }
  } catch (const std::exception &) { out.threw = true; return out; }
  for (size_t i = 0; i < n; ++i) CHECK(biteq(b[i], o.b[i]), "right-hand side modified, operation " << o.kind);
  for (size_t i = 0; i < n; ++i) out.x.push_back(x[i]);
  return out;
}
inline Op gen_op(Src &src, size_t n, size_t ss) {
  Op o;
  o.kind  = src.below(6);
  o.trans = src.chance(1, 2);
  o.r     = ss && src.chance(1, 3) ? 1 + src.below(ss) : 0;
  o.N     = src.pick({2, 1, 3, 5});
  o.b.resize(n);
  Vec v = gen_vec_x(src, n);
  for (size_t i = 0; i < n; ++i) o.b[i] = Down<V>::f(v[i]);
  o.betas[0] = src.pick({1e-8, 0.2, 0.0});
  o.betas[1] = src.pick({1e8, 1.0, 0.5});
  o.junk     = src.pick({V(0), V(7), Down<V>::f(X(std::numeric_limits<LR>::quiet_NaN()))});
  return o;
}
// something invalid is asked for; it must be refused
inline void bad_call(Src &src, H &M, Ctx &ctx) {
  int  k = src.below(4);
  bool threw = false;
  ctx.desc << " bad" << k;
  try {
    switch (k) {
      case 0: {  // mismatched vectors
        hif::Array<V> b(M.empty() ? 3 : M.nrows() + 1 + src.below(3)), x(b.size() + src.below(2));
        for (auto &v : b) v = V(1);
        src.chance(1, 2) ? M.solve(b, x) : M.mmultiply(b, x);
        break;
      }
      case 1: {  // non-square
        Sp g(3, 4);
        for (int i = 0; i < 3; ++i) g.set(i, i, V(2)), g.set(i, i + 1, V(1));
        auto A = g.crs<>();
        auto p = hif::DEFAULT_PARAMS;
        p.verbose = 0;
        M.factorize(A, p);
        break;
      }
      case 2: {  // strange index base
        Sp g(3, 3);
        for (int i = 0; i < 3; ++i) g.set(i, i, V(2));
        auto A = g.crs<>(5);
        auto p = hif::DEFAULT_PARAMS;
        p.verbose = 0;
        M.factorize(A, p);
        break;
      }
      default: {  // column out of range
        Sp g(3, 3);
        for (int i = 0; i < 3; ++i) g.set(i, i, V(2));
        auto A = g.crs<>();
        A.col_ind()[2] = 7;
        auto p = hif::DEFAULT_PARAMS;
        p.verbose = 0;
        M.factorize(A, p);
      }
    }
  } catch (const std::exception &) { threw = true; }
  CHECK(threw, "invalid call " << k << " was not refused");
}
}  // namespace
// a used object behaves like a fresh one
PBT_PROP(history, 3000, 80000) {
  H                     M, M2;
  int                   nc = 1 + (int)src.below(3);
  std::vector<FactCase> cs;
  for (int i = 0; i < nc; ++i) {
    cs.push_back(gen_fact(src, ctx, 18, src.chance(1, 4)));
    if (src.chance(1, 6)) {
      auto & c = cs.back();
      size_t a = src.below(c.g.n), b = src.below(c.g.n);
      if (a != b && !c.p.is_symm && !c.m0) c.g.r[a] = c.g.r[b];
    }
  }
  int  cur = -1, ops = 3 + (int)src.below(8), compared = 0, facts = 0;
  H *  obj[2]   = {&M, &M2};
  int  cof[2]   = {-1, -1};
  (void)cur;
  for (int k = 0; k < ops; ++k) {
    int  w = src.chance(1, 4);
    H &  O = *obj[w];
    int  a = cof[w] < 0 ? (int)src.below(2) * 7 : (int)src.below(10);
    if (a == 0 || (a == 7 && cof[w] < 0)) {
      int         i = src.below(nc);
      hif::Params p = cs[i].p;
      p.threads     = src.pick({0, 1, 2, 3, 5, -1});
      ctx.desc << " | factorize" << w << "(case " << i << ", threads " << p.threads << ")";
      bool ok = fact_checked(O, cs[i], p);
      H    F;
      p.threads = 1;
      bool ok2  = fact_checked(F, cs[i], p);
      CHECK(ok == ok2, "factorization of case " << i << " succeeded on " << (ok ? "the used" : "the fresh") << " object only");
      if (!ok) CHECK(O.empty(), "failed factorization left levels behind");
      cof[w] = ok ? i : -1;
      ++facts;
    } else if (a == 1) {
      ctx.desc << " | clear" << w;
      O.clear();
      CHECK(O.empty() && O.levels() == 0 && O.nnz() == 0, "cleared object is not empty");
      cof[w] = -1;
    } else if (a == 2 || a == 7) {
      ctx.desc << " |" << w;
      bad_call(src, O, ctx);
      if (O.empty()) cof[w] = -1;
    } else if (cof[w] >= 0) {
      const FactCase &c = cs[cof[w]];
      Op              o = gen_op(src, c.g.n, O.schur_size());
      ctx.desc << " | op" << o.kind << "@" << w << (o.trans ? "T" : "") << " r=" << o.r << " N=" << o.N;
      Out         u = apply(O, c, o);
      H           F;
      hif::Params p = c.p;
      p.threads     = 1;
      fact_checked(F, c, p);
      o.junk        = V(0);
      Out         f = apply(F, c, o);
      std::string d = cmp(u, f);
      CHECK(d.empty(), "operation " << o.kind << " differs from a fresh object: " << d);
      ++compared;
    }
  }
  ctx.label("facts=" + std::to_string(facts));
  ctx.nontrivial(compared >= 1 && facts >= 1 && cs[0].g.n >= 3);
}
// the results are those of a process which did nothing else before
namespace {
struct Shared {
  int    state;
  size_t nx, ne;
  long   ex[4096];
  V      x[1 << 16];
};
template <class F>
inline Out in_child(const F &f) {
  static Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->state         = -1;
  fflush(stdout), fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) throw pbt::Discard();
  if (!pid) {
    try {
      Out o  = f();
      sh->nx = std::min(o.x.size(), sizeof(sh->x) / sizeof(V)), sh->ne = std::min(o.extra.size(), sizeof(sh->ex) / sizeof(long));
      std::copy_n(o.x.begin(), sh->nx, sh->x), std::copy_n(o.extra.begin(), sh->ne, sh->ex);
      sh->state = o.threw;
    } catch (const std::exception &) { sh->state = 1; } catch (const pbt::Failure &) { sh->state = 2; }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) throw pbt::Discard();
  CHECK(WIFEXITED(st) && sh->state >= 0 && sh->state < 2, "the process running the operations failed (status " << st << ", state " << sh->state << ")");
  Out o;
  o.threw = sh->state == 1;
  if (o.threw) return o;
  o.x.assign(sh->x, sh->x + sh->nx), o.extra.assign(sh->ex, sh->ex + sh->ne);
  return o;
}
// an ill-conditioned dense-like system, where thresholds decide
inline FactCase gen_graded(Src &src, Ctx &ctx) {
  FactCase c;
  size_t   n = 4 + src.below(10);
  c.g        = Sp(n, n);
  int k      = src.below(3);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      V v = k == 0 ? V(1 / (R)(1 + i + j)) : k == 1 ? V((R)std::pow(0.4, (double)std::max(i, j))) * (V(1) + V((R)0.3) * gen_val(src)) : V((R)std::exp(-0.3 * ((double)i - (double)j) * ((double)i - (double)j)));
      c.g.set(i, j, v);
    }
  if (k != 1 && !IS_CPLX && src.chance(1, 2)) c.p.is_symm = 1;
  int sy = c.p.is_symm;
  c.p    = gen_params(src, src.chance(1, 2));
  c.p.is_symm = sy == 1;
  if (c.p.is_symm) c.p.spd = src.pick({0, 1});
  c.via = src.chance(1, 3);
  ctx.desc << "graded " << k << " n=" << n;
  desc_params(ctx.desc, c.p);
  return c;
}
}  // namespace
PBT_PROP(process, 700, 16000) {
  std::vector<FactCase> cs;
  int                   nc = 2 + (int)src.below(2);
  bool                  graded = src.chance(1, 2);
  for (int i = 0; i < nc; ++i) {
    ctx.desc << " | case " << i << ": ";
    cs.push_back(graded ? gen_graded(src, ctx) : gen_fact(src, ctx, 14, src.chance(1, 4)));
    auto &p   = cs.back().p;
    p.threads = 1;
    if (src.chance(2, 3)) p.rrqr_cond = src.pick({10., 100., 1e3, 1e5, 1e12, 0.});
    ctx.desc << " rrqr_cond=" << p.rrqr_cond;
  }
  std::vector<std::vector<Op>> ops(nc);
  for (int i = 0; i < nc; ++i)
    for (int k = 0; k < 6; ++k) {
      Op o   = gen_op(src, cs[i].g.n, 0);
      o.kind = k, o.junk = V(0);
      ops[i].push_back(o);
    }
  auto run = [&](int first, int last) {
    Out out;
    for (int i = first; i <= last; ++i) {
      H M;
      out      = Out();
      bool ok  = fact_checked(M, cs[i], cs[i].p);
      if (!ok) { out.threw = true; continue; }
      for (auto &o : ops[i]) {
        Out q = apply(M, cs[i], o);
        out.extra.push_back(q.threw);
        out.x.insert(out.x.end(), q.x.begin(), q.x.end());
        out.extra.insert(out.extra.end(), q.extra.begin(), q.extra.end());
      }
    }
    return out;
  };
  Out a = in_child([&] { return run(nc - 1, nc - 1); }), b = in_child([&] { return run(0, nc - 1); });
  std::string d = cmp(b, a);
  CHECK(d.empty(), "the results depend on what the process did before: " << d);
  ctx.nontrivial(!a.threw);
}
// larger systems, where the parallel code paths are taken
namespace {
inline FactCase gen_big(Src &src, Ctx &ctx, size_t lo, size_t hi) {
  FactCase c;
  size_t   n = lo + src.below(hi - lo + 1);
  c.g        = Sp(n, n);
  int    kind = src.below(3);
  size_t per  = 3 + src.below(6);
  uint64_t st = src.below(1u << 30);
  auto     rnd = [&] { return pbt::mix64(++st); };
  auto     val = [&] { double v = 0.1 + (rnd() % 1000) / 500.; if (rnd() & 1) v = -v; return Down<V>::f(X((LR)v)); };
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::pair<int, V>> row;
    std::set<int>                  cols;
    cols.insert(i);
    for (size_t k = 0; k < per; ++k)
      cols.insert(kind == 0 ? rnd() % n : kind == 1 ? std::min<size_t>(n - 1, i + rnd() % 40 > 20 ? i + rnd() % 40 - 20 : 0) : (rnd() % 3 ? std::min<size_t>(n - 1, i + k) : rnd() % n));
    for (int j : cols) {
      V v = val();
      if (IS_CPLX && (rnd() & 1)) v *= Down<V>::f(std::complex<LR>(0.6L, 0.8L));
      if (j == (int)i && rnd() % 3) v *= (R)3;
      row.push_back({j, v});
    }
    c.g.r[i] = row;
  }
  if (!IS_CPLX && src.chance(1, 4)) c.g = hermitize(c.g), c.p.is_symm = 1;
  int sy    = c.p.is_symm;
  c.p       = gen_params(src, false, false);
  c.p.is_symm = sy == 1 ? 1 : 0;
  if (src.chance(1, 2)) c.p.alpha_L = c.p.alpha_U = src.pick({10., 3., 20.});
  if (src.chance(1, 2)) c.p.kappa = c.p.kappa_d = src.pick({1.5, 2., 3.});
  c.p.dense_thres = (int)src.pick({50, 200, 2000});
  if (src.chance(1, 3)) {  // enough fill for the parallel Schur complement
    c.p.alpha_L = c.p.alpha_U = 40;
    c.p.tau_L = c.p.tau_U = 1e-6;
    c.p.kappa = c.p.kappa_d = src.pick({1.5, 2.});
    c.p.pivot = hif::PIVOTING_OFF;
  }
  c.p.c_d = 0.5, c.p.rho = 1e8;
  c.via = src.chance(1, 3);
  ctx.desc << "n=" << n << " kind=" << kind << " per=" << per << " st=" << st << " via=" << c.via;
  desc_params(ctx.desc, c.p);
  return c;
}
inline Out full_run(const FactCase &c, int threads, bool *ok) {
  H           M;
  hif::Params p = c.p;
  p.threads     = threads;
  *ok           = fact_checked(M, c, p);
  Out out;
  if (!*ok) { out.threw = true; return out; }
  Op o;
  size_t n = c.g.n;
  o.r = 0, o.N = 3, o.betas[0] = 1e-10, o.betas[1] = 1e10, o.junk = V(0);
  o.b.resize(n);
  for (size_t i = 0; i < n; ++i) o.b[i] = V((R)(1 + (i * 7) % 11));
  for (int k = 0; k < 6; ++k)
    for (int t = 0; t < 2; ++t) {
      o.kind  = k;
      o.trans = t;
      if (k == 2 && t) continue;
      Out q = apply(M, c, o);
      out.x.insert(out.x.end(), q.x.begin(), q.x.end());
      out.extra.insert(out.extra.end(), q.extra.begin(), q.extra.end());
    }
  for (auto &P : M.precs()) {
    for (auto v : P.E.vals()) out.x.push_back(v);
    for (auto v : P.F.vals()) out.x.push_back(v);
    for (auto v : P.E.inds()) out.extra.push_back(v);
    for (auto v : P.F.inds()) out.extra.push_back(v);
  }
  return out;
}
}  // namespace
PBT_PROP(threads, 48, 1600) {
  FactCase c = gen_big(src, ctx, 450, 900);
  bool     ok1, ok2;
  Out      a = full_run(c, 1, &ok1);
  if (!ok1) throw pbt::Discard();
  int t = src.pick({4, 2, 3, 8, 6, 0});
  int nested = src.below(3);
  ctx.desc << " threads=" << t << " nested=" << nested;
  Out b;
  std::string ex;
  if (!nested) b = full_run(c, t, &ok2);
  else {  // the caller is itself in a parallel region
#pragma omp parallel num_threads(2)
    {
#pragma omp single
      {
        try { b = full_run(c, t, &ok2); }
        catch (const pbt::Failure &f) { ex = f.msg; }
        catch (const std::exception &f) { ex = f.what(); }
      }
    }
  }
  CHECK(ex.empty(), ex);
  std::string d = cmp(b, a);
  CHECK(d.empty(), "with " << t << " threads" << (nested ? " inside a parallel region" : "") << " the results differ from one thread: " << d);
  ctx.nontrivial();
  H           M;
  hif::Params p = c.p;
  p.threads     = 1;
  fact_checked(M, c, p);
  const auto &f = M.precs().front();
  ctx.label(f.n - f.m > 200 ? "parallel drop" : "serial drop");
  ctx.label(f.n - f.m > 200 && f.E.nnz() > 10000 && f.F.nnz() > 10000 ? "parallel Schur" : "serial Schur");
}
// different objects used by different threads at the same time
PBT_PROP(concurrent, 300, 8000) {
  std::vector<FactCase> cs;
  for (int i = 0; i < 4; ++i) {
    cs.push_back(gen_fact(src, ctx, 16, src.chance(1, 4)));
    cs.back().p.threads = 1;
  }
  std::vector<Out> ref(4), got(4);
  std::vector<std::string> ex(4);
  for (int i = 0; i < 4; ++i) { bool ok; ref[i] = full_run(cs[i], 1, &ok); }
#pragma omp parallel for num_threads(4) schedule(static, 1)
  for (int i = 0; i < 4; ++i) {
    try {
      for (int q = 0; q < 3; ++q) { bool ok; got[i] = full_run(cs[i], 1, &ok); }
    } catch (const pbt::Failure &f) { ex[i] = f.msg; }
    catch (const std::exception &f) { ex[i] = f.what(); }
  }
  for (int i = 0; i < 4; ++i) {
    CHECK(ex[i].empty(), ex[i]);
    std::string d = cmp(got[i], ref[i]);
    CHECK(d.empty(), "object " << i << " used concurrently with others differs: " << d);
  }
  ctx.nontrivial();
}
