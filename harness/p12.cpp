// P12: dropping and deferral. A dense long double re-computation of the incomplete Crout
// factorization (thresholds, fill limits, inverse-norm estimates, deferral, off-diagonal sparsification
// and Schur complements, level after level) is compared entry by entry with the stored factors.
// A case in which a decision is too close to call in working precision is abandoned at that point.
#include "fact.hpp"
namespace {
struct Tie {};
typedef std::vector<std::map<int, X>> SM;
const LR MRG = IS_SINGLE ? 5e-5L : 1e-7L;
thread_local LR GROW = 1;  // size of the quantities met so far: differences far below it are noise
enum Kern { NS, PART, SYM, PIV };
const char *kname[] = {"general", "partially symmetric", "symmetric", "pivoting"};
inline LR ab(const X &x) { return std::abs(x); }
// a > b, abandoned if too close
inline bool gt(LR a, LR b) {
  if (a == b) return false;
  if (std::abs(a - b) <= MRG * std::max(std::abs(a), std::abs(b))) throw Tie{};
  return a > b;
}
struct Pars {
  LR kd, k, tL, tU, aL, aU;
};
inline Pars level_pars(const hif::Params &p, int lvl, Kern kern) {
  Pars r{p.kappa_d, p.kappa, p.tau_L, p.tau_U, p.alpha_L, p.alpha_U};
  if (p.rf_par) {
    int f = std::min(lvl, 2);
    r.kd  = std::max((LR)2, (LR)std::pow(p.kappa_d, 1. / f));
    r.k   = std::max((LR)2, (LR)std::pow(p.kappa, 1. / f));
    LR g  = lvl >= 2 ? 10 : 1;
    r.tL /= g, r.tU /= g;
    if (lvl <= 2) r.aL *= f, r.aU *= f;
  }
  if (kern == PIV) r.aL *= 4, r.aU *= 4;
  return r;
}
struct Level {
  size_t              n = 0, m = 0;
  std::vector<int>    P, Q;             // final order
  std::vector<X>      d;                // by step
  std::vector<std::map<int, X>> U, L;   // by step: column id / row id -> value
  SM                  S;
  std::vector<long>   rs, cs;           // sizes handed to the next level
  long                cnt[4] = {0, 0, 0, 0};  // diag, cond deferrals, drops, space drops
  long                defers = 0, dropLE = 0;
  int                 post = 0;
  LR                  grow = 0;         // largest modulus met
  bool                noisy = false;    // entries of S lost most of their digits
};
// keep the N largest
inline std::vector<std::pair<int, X>> largest(std::vector<std::pair<int, X>> v, size_t N) {
  if (v.size() <= N) return v;
  std::sort(v.begin(), v.end(), [](const std::pair<int, X> &a, const std::pair<int, X> &b) { return ab(a.second) > ab(b.second); });
  if (N && N < v.size()) {
    LR a = ab(v[N - 1].second), b = ab(v[N].second);
    if (a - b <= MRG * a || a - b <= 1e3L * EPS * GROW) throw Tie{};
  }
  v.resize(N);
  return v;
}
struct SimIn {
  Kern                    kern;
  SM                      A, AT;
  std::vector<LR>         s, t;
  std::vector<int>        P, Q;  // order in which pivots are offered
  size_t                  m2;    // how many of them
  bool                    defer; // decide deferrals (otherwise every offered pivot was accepted)
  std::vector<long>       rs, cs;
  Pars                    pp;
  LR                      offL, offU;
  int                     spd = 0;
};
inline size_t ceil_alpha(LR alpha, long nnz) {  // computed in double by the definition
  return (size_t)std::ceil((double)alpha * (double)nnz);
}
inline Level simulate(const SimIn &in) {
  size_t n = in.P.size();
  Level  o;
  o.n = n;
  auto val = [&](int i, int j) -> X {
    auto it = in.A[i].find(j);
    return it == in.A[i].end() ? X(0) : X(in.s[i]) * it->second * X(in.t[j]);
  };
  std::vector<std::map<int, X>> Lr(n), Uc(n);  // by row id / column id: step -> value
  std::vector<char>             relim(n, 0), celim(n, 0), inlead_r(n, 0), inlead_c(n, 0);
  std::vector<int>              rowof(n), colof(n);  // partner by position
  for (size_t k = 0; k < n; ++k) {
    rowof[in.Q[k]] = in.P[k], colof[in.P[k]] = in.Q[k];
    if (k < in.m2) inlead_r[in.P[k]] = inlead_c[in.Q[k]] = 1;
  }
  std::vector<X> dc(n, X(0)), ku, kl;  // dc by column id
  for (size_t k = 0; k < in.m2; ++k) dc[in.Q[k]] = val(in.P[k], in.Q[k]);
  std::vector<int> defR, defC;
  auto kap = [&](const std::map<int, X> &col, const std::vector<X> &kk) -> X {
    if (kk.empty()) return X(1);
    X sum(0);
    LR mag = 0;
    for (auto &e : col) sum += kk[e.first] * e.second, mag = std::max(mag, ab(kk[e.first] * e.second));
    X k1 = X(1) - sum, k2 = X(-1) - sum;
    if (mag > 0 && std::abs(ab(k1) - ab(k2)) <= 10 * MRG * std::max((LR)1, mag)) throw Tie{};
    return ab(k1) < ab(k2) ? k2 : k1;
  };
  for (size_t pos = 0; pos < in.m2; ++pos) {
    int  i = in.P[pos], j = in.Q[pos];
    X    dk = dc[j];
    if (in.kern == PIV) {
      dk = val(i, j);
      for (auto &e : Lr[i]) {
        auto u = Uc[j].find(e.first);
        if (u != Uc[j].end()) dk -= e.second * o.d[e.first] * u->second;
      }
    }
    X  a = in.kern == SYM ? X(0) : kap(Uc[j], ku), b = in.kern == PART ? a : kap(Lr[i], kl);
    if (in.kern == SYM) a = b;
    LR dm  = in.kern == SYM ? std::abs((LR)std::real(dk)) : ab(dk);
    // cancellation noise in the pivot
    if (dm < 1e3L * MRG * std::max((LR)1e-30L, ab(val(i, j)) * MRG)) { if (dm != 0) throw Tie{}; }
    bool bad = dm == 0 || gt(1 / dm, in.pp.kd);
    if (in.kern == SYM && in.spd) bad = bad || (in.spd > 0 ? std::real(dk) <= 0 : std::real(dk) >= 0);
    bool cond = !bad && (gt(ab(a), in.pp.k) || gt(ab(b), in.pp.k));
    if (bad || cond) {
      CHECK(in.defer, "a pivot violating its bounds was accepted: |1/d|=" << (double)(1 / dm) << " limit " << (double)in.pp.kd << ", inverse norm estimates " << (double)ab(a) << "," << (double)ab(b) << " limit " << (double)in.pp.k << " at step " << o.d.size() << " (" << kname[in.kern] << " kernel)");
      ++o.cnt[bad ? 0 : 1];
      defR.push_back(i), defC.push_back(j);
      inlead_r[i] = inlead_c[j] = 0;
      continue;
    }
    int k = o.d.size();
    o.P.push_back(i), o.Q.push_back(j), o.d.push_back(dk), ku.push_back(a), kl.push_back(b);
    relim[i] = celim[j] = 1;
    std::map<int, X> u, l;
    if (in.kern != SYM) {
      for (auto &e : in.A[i]) if (!celim[e.first]) u[e.first] = val(i, e.first);
      for (auto &e : Lr[i]) for (auto &f : o.U[e.first]) if (!celim[f.first]) u[f.first] -= e.second * o.d[e.first] * f.second;
    }
    auto wantrow = [&](int r) { return !relim[r] && !(in.kern == PART && inlead_r[r]); };
    for (auto &e : in.AT[j]) if (wantrow(e.first)) l[e.first] = val(e.first, j);
    if (in.kern == SYM) {
      for (auto &e : Lr[i]) for (auto &f : o.L[e.first]) if (wantrow(f.first)) l[f.first] -= e.second * o.d[e.first] * f.second;
    } else {
      for (auto &e : Uc[j]) for (auto &f : o.L[e.first]) if (wantrow(f.first)) l[f.first] -= e.second * o.d[e.first] * f.second;
    }
    for (auto &e : u) e.second /= dk;
    for (auto &e : l) e.second /= dk;
    for (auto *v : {&u, &l}) for (auto &e : *v) o.grow = std::max(o.grow, std::max(ab(e.second), ab(e.second * dk)));
    o.grow = std::max(o.grow, ab(dk)), GROW = std::max(GROW, o.grow);
    if (GROW * EPS * 100 > MRG) throw Tie{};
    // diagonal
    if (in.kern == NS) {
      for (auto &e : u) if (inlead_c[e.first]) { auto f = l.find(rowof[e.first]); if (f != l.end()) dc[e.first] -= dk * e.second * f->second; }
    } else if (in.kern == PART) {
      for (auto &e : u) if (inlead_c[e.first]) dc[e.first] -= dk * e.second * e.second;
    } else if (in.kern == SYM) {
      for (auto &e : l) if (inlead_r[e.first]) dc[colof[e.first]] -= dk * e.second * e.second;
    }
    // dropping
    auto numdrop = [&](std::map<int, X> &v, LR tau, LR kk) {
      LR c = tau / (kk * in.pp.kd);
      std::vector<std::pair<int, X>> r;
      for (auto &e : v) {
        bool drop = false;
        if (c > 0) drop = !gt(ab(e.second), c);
        if (!drop) r.push_back(e);
      }
      return r;
    };
    auto space = [&](const std::vector<std::pair<int, X>> &v, LR alpha, long nnz, size_t start) {
      size_t N1 = ceil_alpha(alpha, nnz);
      if (start >= N1) N1 = start + 1;
      return largest(v, N1 - start);
    };
    std::vector<std::pair<int, X>> ku_, kl_;
    if (in.kern != SYM) {
      ku_ = numdrop(u, in.pp.tU, ab(a));
      size_t b4 = ku_.size();
      ku_ = space(ku_, in.pp.aU, in.rs[i], 0);
      o.cnt[3] += b4 - ku_.size(), o.cnt[2] += u.size() - ku_.size();
    }
    size_t start = 0;
    if (in.kern == PART) for (auto &e : ku_) start += inlead_c[e.first];
    kl_ = numdrop(l, in.pp.tL, ab(b));
    size_t b4 = kl_.size();
    kl_ = space(kl_, in.pp.aL, in.kern == SYM ? in.rs[i] : in.cs[j], start);
    o.cnt[3] += b4 - kl_.size(), o.cnt[2] += l.size() - kl_.size();
    o.U.emplace_back(), o.L.emplace_back();
    if (in.kern == SYM) {
      for (auto &e : kl_) o.L[k][e.first] = e.second, o.U[k][colof[e.first]] = e.second;
    } else {
      for (auto &e : ku_) o.U[k][e.first] = e.second;
      if (in.kern == PART) for (auto &e : ku_) if (inlead_c[e.first]) o.L[k][rowof[e.first]] = e.second;
      for (auto &e : kl_) o.L[k][e.first] = e.second;
    }
    for (auto &e : o.U[k]) Uc[e.first][k] = e.second;
    for (auto &e : o.L[k]) Lr[e.first][k] = e.second;
  }
  o.m = o.d.size(), o.defers = defR.size();
  for (size_t pos = in.m2; pos < n; ++pos) o.P.push_back(in.P[pos]), o.Q.push_back(in.Q[pos]);
  o.P.insert(o.P.end(), defR.begin(), defR.end());
  o.Q.insert(o.Q.end(), defC.begin(), defC.end());
  return o;
}
// off-diagonal sparsification and Schur complement, in the coordinates of the next level
inline void finish(Level &o, const SimIn &in) {
  size_t n = o.n, m = o.m, N = n - m;
  std::vector<std::map<int, X>> LE(N), UF(N);  // by tail row / tail column: step -> value
  std::vector<int>              rp(n), cp(n);
  for (size_t k = 0; k < n; ++k) rp[o.P[k]] = k, cp[o.Q[k]] = k;
  for (size_t k = 0; k < m; ++k) {
    for (auto &e : o.L[k]) if (rp[e.first] >= (int)m) LE[rp[e.first] - m][k] = e.second;
    for (auto &e : o.U[k]) if (cp[e.first] >= (int)m) UF[cp[e.first] - m][k] = e.second;
  }
  auto sparsify = [&](std::vector<std::map<int, X>> &B, LR alpha, const std::vector<int> &ord, const std::vector<long> &sz) {
    for (size_t i = 0; i < N; ++i) {
      size_t th = ceil_alpha(alpha, sz[ord[m + i]]);
      if (th >= B[i].size()) continue;
      o.dropLE += B[i].size() - th;
      auto v = largest(std::vector<std::pair<int, X>>(B[i].begin(), B[i].end()), th);
      B[i]   = std::map<int, X>(v.begin(), v.end());
    }
  };
  sparsify(LE, in.offL, o.P, in.rs);
  if (in.kern == SYM) UF = LE;
  else sparsify(UF, in.offU, o.Q, in.cs);
  std::vector<std::map<int, X>> UFr(m);
  for (size_t j = 0; j < N; ++j) for (auto &e : UF[j]) UFr[e.first][j] = e.second;
  o.S.assign(N, {});
  for (size_t i = 0; i < N; ++i) {
    int r = o.P[m + i];
    for (auto &e : in.A[r]) if (cp[e.first] >= (int)m) o.S[i][cp[e.first] - m] = X(in.s[r]) * e.second * X(in.t[e.first]);
    std::map<int, LR> mag;
    for (auto &e : o.S[i]) mag[e.first] = ab(e.second);
    for (auto &e : LE[i]) for (auto &f : UFr[e.first]) { X v = e.second * o.d[e.first] * f.second; o.S[i][f.first] -= v, mag[f.first] += ab(v); }
    for (auto &e : o.S[i]) {
      o.grow = std::max(o.grow, ab(e.second));
      if (ab(e.second) < (IS_SINGLE ? 1e-2L : 1e-6L) * mag[e.first]) o.noisy = true;
    }
  }
  for (size_t i = 0; i < N; ++i) o.rs.push_back(in.rs[o.P[m + i]]), o.cs.push_back(in.kern == SYM ? 0 : in.cs[o.Q[m + i]]);
}
inline double rnd(Src &s) { return (s.chance(1, 2) ? 1 : -1) * (0.05 + s.unit() * 0.95); }
template <class T>
struct RandV {
  static T f(Src &s) { return T(rnd(s)); }
};
template <class T>
struct RandV<std::complex<T>> {
  static std::complex<T> f(Src &s) { double a = rnd(s); return std::complex<T>(a, rnd(s)); }
};
}  // namespace

static void run(Src &src, Ctx &ctx, size_t nmax) {
  size_t      n = 1 + src.below(nmax);
  hif::Params p = hif::get_default_params();
  p.verbose     = 0;
  auto tau      = [&] { return src.pick({0., 1e-4, 1e-2, 0.1, 0.3, 0.6}); };
  p.tau_L = tau(), p.tau_U = src.chance(1, 2) ? p.tau_L : tau();
  auto al   = [&] { return src.pick({10., 3., 2., 1.5, 1., 0.7, 0.4}); };
  p.alpha_L = al(), p.alpha_U = src.chance(1, 2) ? p.alpha_L : al();
  auto kp   = [&] { return src.pick({3., 5., 2., 10., 1.5, 30.}); };
  p.kappa = kp(), p.kappa_d = src.chance(1, 2) ? p.kappa : kp();
  p.rf_par  = !src.chance(1, 4);
  p.pivot   = src.pick({0, 1, 2});
  p.no_pre  = src.chance(1, 2);
  p.reorder = src.pick({2, 0, 1});
  p.fat_schur_1st = src.chance(1, 4);
  p.symm_pre_lvls = src.pick({-2, 0, 1});
  p.gamma         = src.pick({1., 0.5, 0.1});
  p.dense_thres = src.chance(2, 3) ? (int)src.pick({1, 1, 1, 3, 6}) : (int)src.pick({2000, 0}), p.c_d = src.chance(3, 4) ? 0.1 : src.pick({1.3, 2.9}), p.rho = src.pick({100., 1e3, 0.5, 10.});
  p.N = src.chance(3, 4) ? -1 : (int)src.pick({0, 5, 50});
  int sym = IS_CPLX ? src.pick({0, 2}) : src.pick({0, 0, 1, 2});  // 1 symmetric, 2 leading block
  if (sym == 1) p.is_symm = 1, p.spd = src.pick({0, 0, 1, -1});
  size_t m0 = 0;
  if (!p.no_pre && p.pivot == 2) p.pivot = src.chance(1, 2);  // which kernel ran would be unknown
  if (sym == 2) { m0 = 1 + src.below(n); p.pivot = src.pick({0, 2}); p.no_pre = 1; }
  Sp  g(n, n);
  int dens = 1 + src.below(4);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      if (i == j ? src.chance(9, 10) : src.chance(dens, 8)) g.r[i].push_back({(int)j, RandV<V>::f(src)});
    }
  double dd = src.pick({1., 0., 2., 4.});  // diagonal weight
  for (size_t i = 0; i < n; ++i)
    if (V *e = g.find(i, i)) {
      double sum = 0;
      for (auto &x : g.r[i]) if (x.first != (int)i) sum += std::abs(x.second);
      if (dd > 0) *e *= V(R(1 + dd * sum * 0.4));
      if (p.spd && sym == 1) *e = V(R(std::abs(*e) * (p.spd > 0 ? 1 : -1)));
    }
  if (sym) {
    size_t b = sym == 1 ? n : m0;
    Sp     h = g;
    for (size_t i = 0; i < b; ++i) {
      std::vector<std::pair<int, V>> row;
      for (size_t j = 0; j < b; ++j) {
        V *e = j <= i ? g.find(i, j) : g.find(j, i);
        if (e) row.push_back({(int)j, *e});
      }
      for (auto &e : g.r[i]) if (e.first >= (int)b) row.push_back(e);
      h.r[i] = row;
    }
    g = h;
  }
  if (!g.nnz()) throw pbt::Discard{};
  int via = src.chance(1, 3);
  ctx.desc << "via=" << (via ? "ccs" : "crs") << " m0=" << m0 << " rho=" << p.rho << " dense_thres=" << p.dense_thres << " c_d=" << p.c_d << " N=" << p.N << " fat=" << p.fat_schur_1st << " rf_par=" << p.rf_par;
  desc_params(ctx.desc, p);
  ctx.desc << " A=";
  g.describe(ctx.desc);
  hif::HIF<V> M;
  if (via) { auto A = g.ccs<>(); M.factorize(A, p, m0); }
  else { auto A = g.crs<>(); M.factorize(A, p, m0); }
  // level by level
  SM                A(n);
  for (size_t i = 0; i < n; ++i) for (auto &e : g.r[i]) A[i][e.first] = up(e.second);
  std::vector<long> rs(n), cs(n, 0);
  for (size_t i = 0; i < n; ++i) rs[i] = g.r[i].size();
  for (auto &r : g.r) for (auto &e : r) ++cs[e.first];
  long low = std::ceil(0.85 * g.nnz() / n);
  for (auto &x : rs) x = std::max(x, low);
  for (auto &x : cs) x = std::max(x, low);
  long stats[6] = {0, 0, 0, 0, 0, 0};
  bool st23 = true, st45 = true, must_pivot = false;
  int  lvl = 0, compared = 0;
  LR   scale_tol = IS_SINGLE ? 1e-5L : 1e-8L;
  GROW = 1;
  try {
    auto it = M.precs().cbegin();
    for (; it != M.precs().cend(); ++it) {
      const auto &pr = *it;
      ++lvl;
      size_t N = A.size();
      CHECK(pr.n == N, "level " << lvl << " has size " << pr.n << ", expected " << N);
      Kern kern;
      bool part = lvl == 1 && m0;
      if (p.is_symm) kern = SYM;
      else if (p.pivot == 1 || must_pivot) kern = PIV;
      else kern = part ? PART : NS;
      SM AT(N);
      for (size_t i = 0; i < N; ++i) for (auto &e : A[i]) AT[e.first][i] = e.second;
      SimIn in;
      Level o;
      bool  done = false;
      for (int attempt = 0; attempt < 2 && !done; ++attempt) {
        in      = SimIn();
        in.kern = kern, in.A = A, in.AT = AT, in.rs = rs, in.cs = cs, in.spd = p.spd;
        in.s.resize(N), in.t.resize(N), in.P.resize(N), in.Q.resize(N);
        in.pp   = level_pars(p, lvl, kern);
        LR f    = (kern == PIV ? 4 : 1) * (lvl == 1 && p.fat_schur_1st ? 2 : 1);
        in.offL = p.alpha_L * f, in.offU = p.alpha_U * f;
        for (size_t i = 0; i < N; ++i) in.s[i] = pr.s[i], in.t[i] = pr.t[i];
        bool full = p.no_pre && kern != PIV;  // the order in which pivots are offered is known
        if (full) {
          for (size_t i = 0; i < N; ++i) in.P[i] = in.Q[i] = i;
          for (size_t i = 0; i < N; ++i) CHECK(pr.s[i] == R(1) && pr.t[i] == R(1), "scaling without preprocessing");
          in.m2 = lvl == 1 && m0 ? m0 : N, in.defer = true;
        } else {
          if (pr.m == 0 || kern == PART) {  // nothing stored to compare with
            o = Level(), o.n = N, o.m = 0, o.post = 2;
            st23 = false;
            stats[0] += (long)N;
            done = true;
            ctx.label("all deferred");
            continue;
          }
          for (size_t i = 0; i < N; ++i) in.P[i] = pr.p[i], in.Q[i] = pr.q[i];
          in.m2 = pr.m, in.defer = false, st23 = false;
        }
        o = simulate(in);
        if (full) {
          size_t m2 = in.m2;
          if ((double)o.m <= 0.25 * m2) o.post = 2;
          else if ((double)o.m <= 0.4 * m2) o.post = -1;
          if (p.pivot == 2 && o.post && kern != SYM) {  // redone with pivoting, as a general system
            kern = PIV, must_pivot = true;
            ctx.label("auto pivoting");
            continue;
          }
          long m0_ = in.m2;
          if (o.post == 2) stats[0] += m0_;
          else {
            stats[0] += m0_ - (long)o.m, stats[1] += o.defers;
            stats[2] += o.cnt[0], stats[3] += o.cnt[1];
          }
        } else
          stats[0] += (long)N - (long)o.m;
        if (o.post != 2) stats[4] += o.cnt[2], stats[5] += o.cnt[3];
        if (kern == PART) st45 = false;
        if (!full) stats[1] = -1;
        done = true;
      }
      if (!done) throw Tie{};
      ctx.label(std::string("kernel=") + kname[kern]);
      if (o.post == 2) {
        CHECK(pr.m == 0, "level " << lvl << " keeps " << pr.m << " pivots, expected none (too many deferrals)");
        for (size_t i = 0; i < N; ++i) CHECK((size_t)pr.p[i] == i && (size_t)pr.q[i] == i && pr.s[i] == R(1) && pr.t[i] == R(1), "a level without pivots must be the identity");
        o.S = A, o.rs = rs, o.cs = cs, o.grow = 0;
        for (auto &r : A) for (auto &e : r) o.grow = std::max(o.grow, ab(e.second));
      } else {
        CHECK(pr.m == o.m, "level " << lvl << " keeps " << pr.m << " pivots, expected " << o.m << " (" << kname[kern] << " kernel)");
        for (size_t i = 0; i < N; ++i) CHECK((int)pr.p[i] == o.P[i] && (int)pr.q[i] == o.Q[i], "level " << lvl << " order differs at position " << i << ": (" << pr.p[i] << "," << pr.q[i] << ") expected (" << o.P[i] << "," << o.Q[i] << ")");
        std::vector<int> rp(N), cp(N);
        for (size_t k = 0; k < N; ++k) rp[o.P[k]] = k, cp[o.Q[k]] = k;
        LR tol = scale_tol * std::max((LR)1, o.grow * in.pp.kd) * 10;
        if (tol > (IS_SINGLE ? 0.5L : 1e-3L)) throw Tie{};
        for (size_t k = 0; k < o.m; ++k) CHECK(std::abs(up(pr.d_B[k]) - o.d[k]) <= tol * std::max((LR)1, ab(o.d[k])), "level " << lvl << " pivot " << k << " is " << pr.d_B[k] << ", expected " << (double)std::real(o.d[k]) << " (" << kname[kern] << " kernel)");
        for (int w = 0; w < 2; ++w) {
          const auto &T = w ? pr.L_B : pr.U_B;
          std::vector<std::map<int, X>> got(o.m), want(o.m);
          if (o.m && T.ind_start().size() > o.m)
            for (size_t j = 0; j < o.m; ++j)
              for (auto q = T.ind_start()[j]; q < T.ind_start()[j + 1]; ++q) {
                int r = T.inds()[q];
                w ? got[j][r] = up(T.vals()[q]) : got[r][j] = up(T.vals()[q]);
              }
          for (size_t k = 0; k < o.m; ++k)
            for (auto &e : w ? o.L[k] : o.U[k]) {
              int q = (w ? rp : cp)[e.first];
              if (q < (int)o.m) want[k][q] = e.second;
            }
          for (size_t k = 0; k < o.m; ++k) {
            const char *nm = w ? "L column " : "U row ";
            for (auto &e : got[k]) CHECK(want[k].count(e.first), "level " << lvl << " " << nm << k << " keeps entry " << e.first << " of size " << (double)ab(e.second) << " that had to be dropped (" << kname[kern] << " kernel)");
            for (auto &e : want[k]) {
              CHECK(got[k].count(e.first), "level " << lvl << " " << nm << k << " misses entry " << e.first << " of size " << (double)ab(e.second) << " (" << kname[kern] << " kernel)");
              CHECK(std::abs(got[k][e.first] - e.second) <= tol * std::max((LR)1, ab(e.second)), "level " << lvl << " " << nm << k << " entry " << e.first << " is " << (double)std::real(got[k][e.first]) << ", expected " << (double)std::real(e.second) << " (" << kname[kern] << " kernel)");
            }
          }
        }
        if (o.m < N) finish(o, in);
        ++compared;
        if (o.cnt[2] > o.cnt[3]) ctx.label("numeric drop");
        if (o.cnt[3]) ctx.label("space drop");
        if (o.dropLE) ctx.label("offset drop");
        if (o.defers) ctx.label("dynamic deferral");
        if (lvl > 1) ctx.label("level>1 compared");
      }
      size_t nm = N - pr.m;
      bool   last = pr.is_last_level();
      CHECK((std::next(it) == M.precs().cend()) == last, "last level flag");
      // the Schur complement becomes dense if it is small or dense, or if too many pivots were deferred
      {
        size_t amb = 0;
        for (size_t i = pr.m; i < N; ++i) amb += kern == SYM ? 2 * rs[pr.p[i]] : rs[pr.p[i]] + cs[pr.q[i]];
        double a  = (kern == SYM ? p.alpha_L : std::max(p.alpha_L, p.alpha_U)) * amb, q = (double)nm * nm * p.rho;
        double cb = p.c_d * std::cbrt(p.N >= 0 ? (double)p.N : (double)n);
        size_t th = std::max((size_t)std::ceil(cb), (size_t)(p.dense_thres > 0 ? p.dense_thres : 2000));
        bool   lo = std::ceil(q * (1 + 1e-12)) <= std::floor(a * (1 - 1e-12)), hi = std::ceil(q * (1 - 1e-12)) <= std::floor(a * (1 + 1e-12));
        // how many pivots the level started with is known only without preprocessing
        bool known = p.no_pre && kern != PIV, fewer = known ? o.post < 0 : pr.m <= 0.4 * N;
        bool flag  = fewer && !(p.pivot == 2 && (kern == NS || kern == PART));
        bool must = lo || nm <= th || !pr.m || (flag && known), may = hi || nm <= th || !pr.m || flag;
        if (std::abs(cb - std::round(cb)) > 1e-9) {
          CHECK(!must || last, "level " << lvl << " leaves " << nm << " of " << N << " unknowns, which have to become dense (threshold " << th << ", " << q << " against " << a << ", " << kname[kern] << " kernel)");
          CHECK(may || !last || !nm, "level " << lvl << " leaves " << nm << " of " << N << " unknowns, which must not become dense (threshold " << th << ", " << q << " against " << a << ", " << kname[kern] << " kernel)");
          ctx.label(!nm ? "no rest" : must ? "dense rest" : may ? "undecided rest" : "sparse rest");
        }
      }
      LR gtol = scale_tol * 100 * std::max((LR)1, o.grow * in.pp.kd);
      if (gtol > (IS_SINGLE ? 0.5L : 1e-3L)) throw Tie{};
      if (last && nm) {
        const auto &D = pr.dense_solver.empty() ? pr.symm_dense_solver.mat_backup() : pr.dense_solver.mat_backup();
        CHECK(D.nrows() == nm && D.ncols() == nm, "dense block size");
        for (size_t i = 0; i < nm; ++i)
          for (size_t j = 0; j < nm; ++j) {
            auto w = o.S[i].find(j);
            X    e = w == o.S[i].end() ? X(0) : w->second;
            CHECK(std::abs(up(D(i, j)) - e) <= gtol * std::max((LR)1, ab(e)), "Schur complement of level " << lvl << " entry (" << i << "," << j << ") is " << (double)std::abs(D(i, j)) << ", expected " << (double)ab(e) << " (" << kname[kern] << " kernel)");
          }
        ctx.label("schur compared");
      }
      if (last) break;
      if (o.noisy) throw Tie{};  // the next level would be scaled by noise
      A = o.S, rs = o.rs, cs = o.cs;
    }
    for (int k = 0; k < 6; ++k) {
      if (k == 0 || (k == 1 && stats[1] < 0) || ((k == 2 || k == 3) && !st23) || (k >= 4 && !st45)) continue;
      if (k >= 1 && k <= 3 && !st23) continue;
      CHECK((long)M.stats(k) == stats[k], "statistic " << k << " is " << M.stats(k) << ", expected " << stats[k]);
    }
    ctx.label("complete");
  } catch (Tie &) { ctx.label("tie"); }
  ctx.nontrivial(compared && n >= 3);
}
PBT_PROP(crout, IS_SINGLE ? 2500 : 6000, IS_SINGLE ? 30000 : 120000) { run(src, ctx, IS_SINGLE ? 14 : 22); }
PBT_PROP(crout_big, IS_SINGLE ? 50 : 300, IS_SINGLE ? 500 : 6000) { run(src, ctx, IS_SINGLE ? 30 : 60); }

// ---------------------------------------------------------------- dropping rules on sparse vectors
PBT_PROP(vector, 4000, 60000) {
  size_t n = 1 + src.below(40), k = src.below(n + 1);
  hif::SparseVector<V, int> v(n);
  std::map<int, V>          w;
  bool                      ties = src.chance(1, 3);
  for (size_t i = 0; i < k; ++i) {
    int j = src.below(n);
    V   x = ties ? V(R(src.range(-3, 3))) : RandV<V>::f(src);
    if (v.push_back(j, 1)) v.vals()[j] = x, w[j] = x;
  }
  double tau = src.pick({0., 1., 0.3, 2., -1.}), kappa = src.pick({1., 3., 0.5});
  double alpha = src.pick({1., 2., 0.5, 0., -1., 0.1});
  size_t nnz = src.below(12), start = src.chance(1, 3) ? src.below(30) : 0;
  ctx.desc << "n=" << n << " entries=" << w.size() << " tau=" << tau << " kappa=" << kappa << " alpha=" << alpha << " nnz=" << nnz << " start=" << start;
  hif::apply_num_dropping(tau, kappa, v);
  double c = tau / kappa;
  std::map<int, V> e;
  for (auto &x : w) if (!(c > 0) || std::abs(x.second) > c) e.insert(x);
  CHECK(v.size() == e.size(), "threshold " << c << " left " << v.size() << " entries, expected " << e.size());
  for (size_t i = 0; i < v.size(); ++i) CHECK(e.count(v.idx(i)) && biteq(e[v.idx(i)], v.val(i)), "wrong entry kept by the threshold");
  hif::apply_space_dropping(nnz, alpha, v, start);
  size_t lim = e.size();
  if (alpha > 0) {
    size_t N1 = std::ceil(alpha * nnz);
    if (start >= N1) N1 = start + 1;
    lim = std::min(lim, N1 - start);
  }
  CHECK(v.size() == lim, "space limit left " << v.size() << " entries, expected " << lim);
  std::set<int> seen;
  double        smallest = 1e300, largest_out = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(e.count(v.idx(i)) && biteq(e[v.idx(i)], v.val(i)) && seen.insert(v.idx(i)).second, "wrong entry kept by the space limit");
    smallest = std::min(smallest, (double)std::abs(v.val(i)));
  }
  for (auto &x : e) if (!seen.count(x.first)) largest_out = std::max(largest_out, (double)std::abs(x.second));
  if (v.size() < e.size()) CHECK(smallest >= largest_out, "an entry of size " << largest_out << " was dropped while one of size " << smallest << " was kept");
  ctx.nontrivial(w.size() > 1);
}

// ---------------------------------------------------------------- effectiveness
PBT_PROP(effect, 300, 6000) {
  size_t n = src.chance(1, 3) ? 100 + src.below(150) : 5 + src.below(60);
  Sp     g(n, n);
  size_t per = 1 + src.below(6), band = src.chance(1, 2) ? n : 1 + src.below(12);
  bool   symm = !IS_CPLX && src.chance(1, 3);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < per; ++k) {
      size_t j = band == n ? src.below(n) : (i + src.below(band)) % n;
      if (j != i) g.set(i, j, RandV<V>::f(src));
    }
  if (symm) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { V *e = g.find(i, j); if (e) g.set(j, i, *e); else if ((e = g.find(j, i))) g.set(i, j, *e); }
  std::vector<double> rs(n, 0.), cs(n, 0.);
  for (size_t i = 0; i < n; ++i) for (auto &e : g.r[i]) rs[i] += std::abs(e.second), cs[e.first] += std::abs(e.second);
  double dom = src.pick({2., 1.2, 5.});
  for (size_t i = 0; i < n; ++i) g.set(i, i, V(R(dom * std::max({rs[i], cs[i], 0.1}))));
  hif::Params p = hif::get_default_params();
  p.verbose = 0;
  p.is_symm = symm;
  p.pivot   = src.pick({2, 0, 1});
  if (src.chance(1, 2)) p.dense_thres = 5, p.c_d = 1, p.rho = 100;
  p.tau_L = p.tau_U = src.pick({1e-4, 1e-3});
  ctx.desc << "n=" << n << " per=" << per << " band=" << band << " symm=" << symm << " dom=" << dom;
  desc_params(ctx.desc, p);
  hif::HIF<V> M;
  M.factorize(g.crs<>(), p);
  for (int tr = 0; tr < 2; ++tr) {
    auto x = gen_arr(src, n);
    Vec  xx(n);
    for (size_t i = 0; i < n; ++i) x[i] = RandV<V>::f(src), xx[i] = up(x[i]);
    Mat           A = g.dense();
    Vec           b = (tr ? A.H() : A) * xx;
    hif::Array<V> bb(n), y(n);
    for (size_t i = 0; i < n; ++i) bb[i] = Down<V>::f(b[i]);
    M.solve(bb, y, tr);
    LR e = 0, s = 0;
    for (size_t i = 0; i < n; ++i) e += std::norm(up(y[i]) - xx[i]), s += std::norm(xx[i]);
    if (getenv("PBT_STAT")) printf("EFF %g %d %g\n", (double)std::sqrt(e / s), tr, p.tau_L);
    CHECK(e <= 0.01L * s, (tr ? "transposed " : "") << "relative error " << (double)std::sqrt(e / s) << " for a diagonally dominant system");
  }
  ctx.nontrivial(n >= 10);
}
