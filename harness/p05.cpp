// P05: a solve with several right-hand sides equals column-by-column solves.
#include "fact.hpp"
template <class H, class VX>
struct Driver {
  typedef hif::HIF<H> Hif;
};
// value type of the vectors handed to a preconditioner of value type V
template <class W, size_t N, class HIF>
static LR one(const HIF &M, Src &src, Ctx &ctx, size_t r, const Mat &bnd, std::string &msg, bool aliased) {
  size_t                         n = M.nrows();
  typedef std::array<W, N>       Row;
  hif::Array<Row>                b(n), x(n), b0(n);
  Mat                            B(n, N);
  int                            zero = src.chance(1, 4) ? (int)src.below(N) : -1;
  for (size_t k = 0; k < N; ++k) {
    Vec v = gen_vec_x(src, n);
    for (size_t i = 0; i < n; ++i) {
      b[i][k] = (int)k == zero ? W(0) : Down<W>::f(v[i]);
      x[i][k] = W(-77);
      B(i, k) = up(b[i][k]);
    }
  }
  for (size_t i = 0; i < n; ++i) b0[i] = b[i];
  M.solve_mrhs(b, x, r);
  CHECK(!std::memcmp(b0.data(), b.data(), sizeof(Row) * n), "right-hand sides were modified");
  LR worst = 0;
  for (size_t k = 0; k < N; ++k) {
    hif::Array<W> c(n), y(n);
    for (size_t i = 0; i < n; ++i) c[i] = b[i][k], y[i] = W(5);
    M.solve(c, y, false, r);
    for (size_t i = 0; i < n; ++i) {
      LR s = 0;
      for (size_t j = 0; j < n; ++j) s += std::abs(bnd(i, j)) * std::abs(B(j, k));
      if (!finite_(up(y[i])) || !finite_(up(x[i][k]))) {
        if (!finite_(up(y[i])) && !finite_(up(x[i][k]))) { ctx.label("overflow"); continue; }
        std::ostringstream os;
        os << "entry " << i << " of column " << k << ": " << x[i][k] << " and single solve " << y[i];
        msg = os.str();
        return std::numeric_limits<LR>::infinity();
      }
      LR d = std::abs(up(y[i]) - up(x[i][k])), e = d / std::max(s * EPS, (LR)std::numeric_limits<R>::min());
      if (e > worst) {
        worst = e;
        std::ostringstream os;
        os << "entry " << i << " of column " << k << "/" << N << ": " << x[i][k] << " but single solve " << y[i] << ", " << (double)e << " eps*bound, rank arg " << r;
        msg = os.str();
      }
    }
  }
  return worst;
}
template <class W, class HIF>
static LR dispatch(size_t N, const HIF &M, Src &src, Ctx &ctx, size_t r, const Mat &bnd, std::string &msg) {
  switch (N) {
    case 1: return one<W, 1>(M, src, ctx, r, bnd, msg, false);
    case 2: return one<W, 2>(M, src, ctx, r, bnd, msg, false);
    case 3: return one<W, 3>(M, src, ctx, r, bnd, msg, false);
    case 4: return one<W, 4>(M, src, ctx, r, bnd, msg, false);
    case 5: return one<W, 5>(M, src, ctx, r, bnd, msg, false);
    default: return one<W, 8>(M, src, ctx, r, bnd, msg, false);
  }
}
PBT_PROP(mrhs, 4000, 100000) {
  hif::HIF<V> M;
  int         rounds = 1 + (int)src.below(2);
  bool        judged = false;
  for (int q = 0; q < rounds; ++q) {
    FactCase c = gen_fact(src, ctx, 24, src.chance(1, 3));
    if (src.chance(1, 5)) {
      size_t n = c.g.n, a = src.below(n), b = src.below(n);
      if (a != b && !c.p.is_symm) c.g.r[a] = c.g.r[b], ctx.label("singular");
    }
    if (!IS_CPLX && src.chance(1, 6)) {  // nothing but a singular dense block
      size_t n = 2 + src.below(10), k = 1 + src.below(n - 1);
      c        = FactCase();
      c.g      = Sp(n, n);
      c.p      = gen_params(src, false);
      c.p.no_pre = 1, c.p.is_symm = src.chance(3, 4);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
          if ((i < k) != (j < k) && (i + j) % 3) {
            V v = gen_val(src);
            if (i >= k + 1 && src.chance(1, 2)) v = c.g.find(i - 1, j) ? *c.g.find(i - 1, j) * V(2) : V(0);
            if (v != V(0)) c.g.set(i, j, v), c.g.set(j, i, v);
          }
      for (size_t i = 0; i < n; ++i) if (c.g.r[i].empty()) c.g.set(i, i, V(1));
      ctx.desc << " block k=" << k << " ";
      desc_params(ctx.desc, c.p);
      c.g.describe(ctx.desc);
      ctx.label("singular block");
    }
    try {
      do_factorize(M, c);
    } catch (const std::exception &) { throw pbt::Discard(); }
    size_t n   = c.g.n;
    int    ops = 1 + (int)src.below(4);
    for (int o = 0; o < ops; ++o) {
      int what = src.below(5);
      if (what == 4) {  // something else happens to the object
        hif::Array<V> b = gen_arr(src, n), x(n);
        int           k = src.below(3);
        ctx.desc << " other" << k;
        if (k == 0) M.solve(b, x, true);
        else if (k == 1) M.mmultiply(b, x);
        else {
          M.hifir(c.g.crs<>(), b, 2, x);
        }
        continue;
      }
      size_t r = 0;
      if (M.schur_size() && src.chance(1, 3)) r = 1 + src.below(M.schur_size());
      if (r > M.schur_rank()) ctx.label("rank above the numerical one");
      size_t N = (size_t)src.pick({2, 1, 3, 4, 5, 8});
      ctx.desc << " solve_mrhs<" << N << ">(r=" << r << ")";
      RefOp       f = ref_inverse(M.precs().cbegin(), r, false);
      std::string msg;
      LR          w = dispatch<V>(N, M, src, ctx, r, f.bnd, msg);
      LR          G = IS_SINGLE ? 2000 : 1e4L;
      CHECK(w <= G, "solve with several right-hand sides differs from single solves: " << msg << "; levels " << M.levels());
      judged = judged || (n >= 3 && N >= 2 && c.g.nnz() > n);
      ctx.label("N=" + std::to_string(N));
    }
    ctx.label("levels=" + std::to_string(M.levels()));
  }
  ctx.nontrivial(judged);
}
