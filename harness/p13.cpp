// P13: compressed storage objects against a plain model (sorted rows of exact values) under histories of
// conversions, splits, permutations, scaling, pruning, assembling, wrapping, copying and moving.
#include "ref.hpp"
#include <memory>

namespace {
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
typedef std::vector<std::vector<std::pair<int, V>>> Rows;  // primary entries (rows of a CRS, columns of a CCS)

inline Sp rnd_sp(Src &s, size_t m, size_t n) {
  Sp  A(m, n);
  int den = s.pick({30, 10, 60, 100, 0});
  int val = s.below(4);
  Lcg g{s.below(1u << 30)};
  for (size_t i = 0; i < m; ++i) {
    if (g.unit() < 0.1) continue;
    for (size_t j = 0; j < n; ++j)
      if (g.unit() * 100 < den) {
        double a = g.unit(), b = g.unit();
        double re = val == 0 ? (double)(int)(a * 9) - 4 : val == 1 ? a - 0.5 : std::ldexp(0.5 + 0.5 * a, (int)(b * 40) - 30) * (g.next() & 1 ? 1 : -1);
        double im = g.next() % 3 ? (double)(int)(g.unit() * 5) - 2 : 0;
        if (val == 1 && g.unit() < 0.2) re = im = 0;
        A.r[i].push_back({(int)j, Down<V>::f(std::complex<LR>(re, im))});
      }
  }
  return A;
}
inline hif::Array<V> rnd_arr(Src &s, size_t n) {
  Lcg           g{s.below(1u << 20)};
  hif::Array<V> a(n);
  for (auto &x : a) { double re = g.unit() * 4 - 2, im = g.unit() * 2 - 1; x = Down<V>::f(std::complex<LR>(re, im)); }
  return a;
}
inline std::vector<int> rnd_perm(Src &s, size_t n) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  Lcg g{s.below(1u << 20)};
  if (s.chance(4, 5))
    for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[g.next() % i]);
  return p;
}
inline bool same(const V &a, const V &b) {  // one product of difference at most
  return biteq(a, b) || std::abs(up(a) - up(b)) <= 8 * EPS * std::abs(up(b));
}

// one storage object and the matrix it must represent
template <class I, class P>
struct Obj {
  typedef hif::CRS<V, I, P> CR;
  typedef hif::CCS<V, I, P> CC;
  bool                      row = true;
  CR                        a;
  CC                        b;
  Sp                        m;
  std::shared_ptr<int>      grp = std::make_shared<int>(0);  // objects sharing their arrays
};

template <class CS>
inline size_t prim(const CS &A) { return A.primary_size(); }

template <class CS>
void verify_cs(const CS &A, const Sp &m, const Sp &prim, const char *what) {
  CHECK(A.nrows() == m.m && A.ncols() == m.n, what << ": is " << A.nrows() << "x" << A.ncols() << " instead of " << m.m << "x" << m.n);
  size_t np = prim.m, nz = m.nnz();
  CHECK(A.primary_size() == np, what << ": primary size " << A.primary_size());
  CHECK(A.nnz() == nz, what << ": " << A.nnz() << " entries instead of " << nz);
  if (!np || (A.ind_start().size() == 0 && nz == 0)) return;
  CHECK(A.ind_start().size() == np + 1, what << ": pointer array of length " << A.ind_start().size() << " for " << np);
  CHECK(A.ind_start()[0] == 0 && (size_t)A.ind_start()[np] == nz, what << ": pointers from " << A.ind_start()[0] << " to " << A.ind_start()[np]);
  CHECK(A.inds().size() == nz && A.vals().size() == nz, what << ": arrays of length " << A.inds().size() << "/" << A.vals().size() << " for " << nz);
  try {
    A.check_validity();
  } catch (const std::exception &e) {
    CHECK(false, what << ": a valid matrix is declared invalid");
  }
  for (size_t i = 0; i < np; ++i) {
    CHECK(A.nnz_in_primary(i) == prim.r[i].size(), what << ": primary entry " << i << " has " << A.nnz_in_primary(i) << " entries instead of " << prim.r[i].size());
    auto it = A.ind_cbegin(i);
    auto v  = A.val_cbegin(i);
    for (auto &e : prim.r[i]) {
      CHECK(it != A.ind_cend(i) && v != A.val_cend(i), what << ": iterators end early");
      CHECK((long)*it == e.first, what << ": index " << *it << " instead of " << e.first << " in " << i);
      CHECK(same(*v, e.second), what << ": value " << *v << " instead of " << e.second << " at (" << i << "," << e.first << ")");
      ++it, ++v;
    }
    CHECK(it == A.ind_cend(i) && v == A.val_cend(i), what << ": iterators end late");
  }
}
template <class I, class P>
void verify(const Obj<I, P> &o, const char *what) {
  if (o.row) verify_cs(o.a, o.m, o.m, what);
  else verify_cs(o.b, o.m, o.m.T(), what);
}
inline Sp sub(const Sp &A, size_t i0, size_t i1, size_t j0, size_t j1) {
  Sp B(i1 - i0, j1 - j0);
  for (size_t i = i0; i < i1; ++i)
    for (auto &e : A.r[i])
      if ((size_t)e.first >= j0 && (size_t)e.first < j1) B.r[i - i0].push_back({e.first - (int)j0, e.second});
  return B;
}
// B(i,j) = A(p[i],q[j])
inline Sp permuted(const Sp &A, const std::vector<int> &p, const std::vector<int> &q) {
  Sp               B(A.m, A.n);
  std::vector<int> qi(q.size());
  for (size_t j = 0; j < q.size(); ++j) qi[q[j]] = j;
  for (size_t i = 0; i < A.m; ++i) {
    for (auto &e : A.r[p[i]]) B.r[i].push_back({qi[e.first], e.second});
    std::sort(B.r[i].begin(), B.r[i].end(), [](const std::pair<int, V> &x, const std::pair<int, V> &y) { return x.first < y.first; });
  }
  return B;
}
template <class I>
inline hif::Array<I> arr_of(const std::vector<int> &v) {
  hif::Array<I> a(v.size());
  for (size_t i = 0; i < v.size(); ++i) a[i] = v[i];
  return a;
}
// per primary entry, the position of the first index >= c
template <class CS>
inline hif::Array<typename CS::indptr_type> starts(const CS &A, size_t c) {
  hif::Array<typename CS::indptr_type> s(A.primary_size());
  for (size_t i = 0; i < A.primary_size(); ++i) {
    auto k = A.ind_start()[i];
    while (k < A.ind_start()[i + 1] && (size_t)A.inds()[k] < c) ++k;
    s[i] = k;
  }
  return s;
}
template <class CS>
struct Asm;
template <class I, class P>
struct Asm<hif::CRS<V, I, P>> {
  typedef hif::CRS<V, I, P> T;
  static void begin(T &A) { A.begin_assemble_rows(); }
  static void end(T &A) { A.end_assemble_rows(); }
  static void empty(T &A, size_t i) { A.push_back_empty_row(i); }
  template <class It, class Va>
  static void push(T &A, size_t i, It f, It l, const Va &v) { A.push_back_row(i, f, l, v); }
  template <class It, class Va>
  static void push2(T &A, size_t i, It f, It l, const Va &v, It f2, It l2, const Va &v2) { A.push_back_row(i, f, l, v, f2, l2, v2); }
};
template <class I, class P>
struct Asm<hif::CCS<V, I, P>> {
  typedef hif::CCS<V, I, P> T;
  static void begin(T &A) { A.begin_assemble_cols(); }
  static void end(T &A) { A.end_assemble_cols(); }
  static void empty(T &A, size_t i) { A.push_back_empty_col(i); }
  template <class It, class Va>
  static void push(T &A, size_t i, It f, It l, const Va &v) { A.push_back_col(i, f, l, v); }
  template <class It, class Va>
  static void push2(T &A, size_t i, It f, It l, const Va &v, It f2, It l2, const Va &v2) { A.push_back_col(i, f, l, v, f2, l2, v2); }
};
// rebuild A from its model by pushing primary entries
template <class CS>
void assemble(Src &s, CS &A, const Sp &pm) {
  typedef typename CS::index_type I;
  if (s.chance(1, 2)) A.reserve(s.below(2 * pm.nnz() + 2));
  Asm<CS>::begin(A);
  Lcg g{s.below(1u << 20)};
  for (size_t i = 0; i < pm.m; ++i) {
    hif::Array<V>  v(pm.n, V(7)), w(pm.n, V(-9));
    std::vector<I> idx;
    for (auto &e : pm.r[i]) { idx.push_back(e.first); v[e.first] = e.second; w[e.first] = e.second; }
    if (idx.empty() && (g.next() & 1)) Asm<CS>::empty(A, i);
    else if (g.next() & 1) {
      size_t c = g.next() % (idx.size() + 1);
      for (size_t k = 0; k < idx.size(); ++k) (k < c ? w : v)[idx[k]] = V(55);  // only its own segment counts
      Asm<CS>::push2(A, i, idx.begin(), idx.begin() + c, v, idx.begin() + c, idx.end(), w);
    } else
      Asm<CS>::push(A, i, idx.begin(), idx.end(), v);
  }
  Asm<CS>::end(A);
}
// expected number removed and the pruned model; false if a decision is within rounding
inline bool prune_model(Sp &m, R eps, size_t &removed) {
  Mat             D = m.dense();
  std::vector<LR> rm(m.m, 0), cm(m.n, 0);
  for (size_t i = 0; i < m.m; ++i)
    for (auto &e : m.r[i]) { rm[i] = std::max(rm[i], (LR)std::abs(up(e.second))); cm[e.first] = std::max(cm[e.first], (LR)std::abs(up(e.second))); }
  if (eps < 0) eps = 0;
  removed = 0;
  for (size_t i = 0; i < m.m; ++i) {
    std::vector<std::pair<int, V>> k;
    for (auto &e : m.r[i]) {
      LR a = std::abs(up(e.second)), t = eps * std::min(rm[i], cm[e.first]);
      if (std::abs(a - t) <= 16 * EPS * t && !(a == 0 && t == 0)) return false;
      if (a <= t) ++removed;
      else k.push_back(e);
    }
    m.r[i] = k;
  }
  return true;
}

template <class CS, class OT, bool ROW>
struct Fam;
template <class CS>
void wrap_raw(Src &s, Ctx &ctx, CS &A, const Sp &m) {
  // export to user arrays, then wrap or copy them
  typedef typename CS::index_type  I;
  typedef typename CS::indptr_type P;
  std::vector<P> ip(A.primary_size() + 1, P(-7));
  std::vector<I> ix(m.nnz() + 1, I(-5));
  std::vector<V> vv(m.nnz() + 1, V(99));
  hif::export_compressed_data<CS>(A, ip.data(), ix.data(), vv.data());
  CHECK(ix.back() == I(-5) && biteq(vv.back(), V(99)), "export wrote beyond the last entry");
  auto ip0 = ip; auto ix0 = ix; auto vv0 = vv;
  bool wrap = s.chance(1, 2);
  {
    CS B(A.nrows(), A.ncols(), ip.data(), ix.data(), vv.data(), wrap);
    verify_cs(B, m, CS::ROW_MAJOR ? m : m.T(), wrap ? "wrapped arrays" : "copied arrays");
    CS C(B, true);
    hif::Array<V> sc = rnd_arr(s, m.m);
    B.scale_diag_left(sc);
    Sp t = m;
    for (size_t i = 0; i < m.m; ++i) for (auto &e : t.r[i]) e.second *= sc[i];
    verify_cs(B, t, CS::ROW_MAJOR ? t : t.T(), "scaled wrapper");
    verify_cs(C, m, CS::ROW_MAJOR ? m : m.T(), "copy of the wrapper");
    if (wrap) {  // the scaling must be visible in the user's array
      size_t k = 0;
      Sp     pt = CS::ROW_MAJOR ? t : t.T();
      for (auto &r : pt.r) for (auto &e : r) { CHECK(same(vv[k], e.second), "scaling a wrapper is not visible in the user's array"); ++k; }
    } else
      CHECK(!std::memcmp(vv.data(), vv0.data(), vv.size() * sizeof(V)), "scaling a copy changed the user's array");
  }
  CHECK(ip == ip0 && ix == ix0, "a wrapper changed the user's index arrays");
  A = CS(A.nrows(), A.ncols(), ip0.data(), ix0.data(), vv0.data(), false);
  ctx.label(wrap ? "wrap" : "own");
}

template <class I, class P>
void history(Src &s, Ctx &ctx) {
  typedef Obj<I, P>         O;
  typedef hif::CRS<V, I, P> CR;
  typedef hif::CCS<V, I, P> CC;
  size_t m = s.below(12), n = s.chance(1, 3) ? m : s.below(12);
  std::vector<O> os(1);
  os[0].m   = rnd_sp(s, m, n);
  os[0].row = s.chance(1, 2);
  if (os[0].row) os[0].a = os[0].m.template crs<I, P>();
  else os[0].b = os[0].m.template ccs<I, P>();
  ctx.desc << "IxP=" << sizeof(I) << "x" << sizeof(P) << (os[0].row ? " crs " : " ccs ");
  os[0].m.describe(ctx.desc);
  verify(os[0], "initial matrix");
  int steps = 1 + s.below(8), nops = 0;
  for (int st = 0; st < steps; ++st) {
    O & o  = os[s.below(os.size())];
    int op = s.below(17);
    ctx.desc << " op" << op;
    size_t       mm = o.m.m, nn = o.m.n, nz = o.m.nnz();
    const size_t sec = o.row ? nn : mm;
    char         what[64];
    snprintf(what, sizeof what, "operation %d", op);
    if (nz) ++nops;
    switch (op) {
      case 0: {  // other storage
        if (o.row) { o.b = CC(o.a); o.a = CR(); }
        else { o.a = CR(o.b); o.b = CC(); }
        o.row = !o.row;
        o.grp = std::make_shared<int>(0);
        break;
      }
      case 1: case 2: {  // deep or shallow copy
        if (os.size() >= 4) break;
        O c;
        c.row = o.row; c.m = o.m;
        c.a = CR(o.a, op == 1); c.b = CC(o.b, op == 1);
        if (op == 2) c.grp = o.grp;
        os.push_back(c);
        break;
      }
      case 3: {  // move out and back
        CR ta(std::move(o.a)); CC tb(std::move(o.b));
        CR t2; t2 = std::move(ta);
        o.a = std::move(t2); o.b = std::move(tb);
        break;
      }
      case 4: {
        int           side = s.below(3);
        hif::Array<V> l = rnd_arr(s, mm), r = rnd_arr(s, nn);
        if (o.row) { side == 0 ? o.a.scale_diag_left(l) : side == 1 ? o.a.scale_diag_right(r) : o.a.scale_diags(l, r); }
        else { side == 0 ? o.b.scale_diag_left(l) : side == 1 ? o.b.scale_diag_right(r) : o.b.scale_diags(l, r); }
        auto g = o.grp;
        for (auto &x : os)
          if (x.grp == g)
            for (size_t i = 0; i < x.m.m; ++i)
              for (auto &e : x.m.r[i]) {
                if (side != 1) e.second *= l[i];
                if (side != 0) e.second *= r[e.first];
              }
        break;
      }
      case 5: case 6: {  // split at an index of the secondary direction
        size_t c = s.below(sec + 1);
        bool   second = s.chance(1, 2), st_ = s.chance(1, 2), both = s.chance(1, 2), dual = op == 6;
        Sp     f = o.row ? sub(o.m, 0, mm, 0, c) : sub(o.m, 0, c, 0, nn), g = o.row ? sub(o.m, 0, mm, c, nn) : sub(o.m, c, mm, 0, nn);
        O      x;
        x.row = dual ? !o.row : o.row;
        x.m   = second ? g : f;
        if (o.row) {
          auto pos = starts(o.a, c);
          if (!dual) {
            std::pair<CR, CR> pr;
            if (both) pr = st_ ? o.a.split(c, pos) : o.a.split(c);
            else if (second) pr.second = st_ ? o.a.template split<true>(c, pos) : o.a.template split<true>(c);
            else pr.first = st_ ? o.a.template split<false>(c, pos) : o.a.template split<false>(c);
            if (both) { verify_cs(pr.first, f, f, "first part"); verify_cs(pr.second, g, g, "second part"); }
            x.a = second ? pr.second : pr.first;
          } else {
            std::pair<CC, CC> pr;
            if (both) pr = st_ ? o.a.split_ccs(c, pos) : o.a.split_ccs(c);
            else if (second) pr.second = st_ ? o.a.template split_ccs<true>(c, pos) : o.a.template split_ccs<true>(c);
            else pr.first = st_ ? o.a.template split_ccs<false>(c, pos) : o.a.template split_ccs<false>(c);
            if (both) { verify_cs(pr.first, f, f.T(), "first part"); verify_cs(pr.second, g, g.T(), "second part"); }
            x.b = second ? pr.second : pr.first;
          }
        } else {
          auto pos = starts(o.b, c);
          if (!dual) {
            std::pair<CC, CC> pr;
            if (both) pr = st_ ? o.b.split(c, pos) : o.b.split(c);
            else if (second) pr.second = st_ ? o.b.template split<true>(c, pos) : o.b.template split<true>(c);
            else pr.first = st_ ? o.b.template split<false>(c, pos) : o.b.template split<false>(c);
            if (both) { verify_cs(pr.first, f, f.T(), "first part"); verify_cs(pr.second, g, g.T(), "second part"); }
            x.b = second ? pr.second : pr.first;
          } else {
            std::pair<CR, CR> pr;
            if (both) pr = st_ ? o.b.split_crs(c, pos) : o.b.split_crs(c);
            else if (second) pr.second = st_ ? o.b.template split_crs<true>(c, pos) : o.b.template split_crs<true>(c);
            else pr.first = st_ ? o.b.template split_crs<false>(c, pos) : o.b.template split_crs<false>(c);
            if (both) { verify_cs(pr.first, f, f, "first part"); verify_cs(pr.second, g, g, "second part"); }
            x.a = second ? pr.second : pr.first;
          }
        }
        verify(x, "part");
        if (os.size() < 4) os.push_back(x);
        else o = x;
        break;
      }
      case 7: case 8: {  // permute (all, leading block, structure only)
        auto   p = rnd_perm(s, mm), q = rnd_perm(s, nn);
        size_t k  = std::min(mm, nn), lead = s.chance(1, 2) ? 0 : s.below(k + 1);
        bool   so = s.chance(1, 4);
        Sp     t  = permuted(o.m, p, q);
        if (lead) t = sub(t, 0, lead, 0, lead);
        std::vector<int> pi(mm), qi(nn);
        for (size_t i = 0; i < mm; ++i) pi[p[i]] = i;
        for (size_t i = 0; i < nn; ++i) qi[q[i]] = i;
        O x;
        x.row = o.row; x.m = t;
        if (o.row) x.a = o.a.compute_perm(arr_of<I>(p), arr_of<I>(qi), lead, so);
        else x.b = o.b.compute_perm(arr_of<I>(pi), arr_of<I>(q), lead, so);
        if (so) {
          auto &inds = o.row ? x.a.inds() : x.b.inds();
          auto &vals = o.row ? x.a.vals() : x.b.vals();
          CHECK(inds.size() == t.nnz(), "permuted structure has " << inds.size() << " entries instead of " << t.nnz());
          vals.resize(inds.size());
          size_t z = 0;
          Sp     pt = o.row ? t : t.T();
          for (auto &r : pt.r) for (auto &e : r) vals[z++] = e.second;
        }
        verify(x, "permuted matrix");
        if (os.size() < 4) os.push_back(x);
        else o = x;
        break;
      }
      case 9: {
        size_t k = s.below(std::min(mm, nn) + 1);
        O      x;
        x.row = o.row; x.m = sub(o.m, 0, k, 0, k);
        if (o.row) x.a = o.a.extract_leading(k);
        else x.b = o.b.extract_leading(k);
        verify(x, "leading block");
        if (os.size() < 4) os.push_back(x);
        else o = x;
        break;
      }
      case 10: case 11: {  // prune (its arrays must not be shared)
        if (o.row) o.a = CR(o.a, true); else o.b = CC(o.b, true);
        o.grp = std::make_shared<int>(0);
        R      eps = s.pick({0., 0.1, 0.5, 1e-3, -1., 1e-6, 0.9, 2.});
        bool   shrink = s.chance(1, 2);
        size_t rem;
        ctx.desc << "(eps=" << eps << ")";
        if (!prune_model(o.m, eps, rem)) { ctx.label("prune-tie"); throw pbt::Discard(); }
        // the positions and indices may start from 1
        const bool one = s.chance(1, 3);
        auto shift = [&](auto &ps, auto &is, int d) {
          for (auto &p : ps) p += d;
          for (auto &i : is) i += d;
        };
        auto shift_o = [&](int d) {
          if (o.row) shift(o.a.row_start(), o.a.col_ind(), d);
          else shift(o.b.col_start(), o.b.row_ind(), d);
        };
        if (one) shift_o(1), ctx.label("prune-one-based");
        size_t got = o.row ? o.a.prune(eps, shrink) : o.b.prune(eps, shrink);
        if (one) {
          // the number of entries is the last position less the first one
          const size_t left = o.m.nnz() + 1;
          const size_t last = o.row ? o.a.row_start()[mm] : o.b.col_start()[nn];
          CHECK(last == left, "the last one-based position after pruning is " << last << " instead of " << left);
          if (o.row) o.a.col_ind().resize(left - 1), o.a.vals().resize(left - 1);
          else o.b.row_ind().resize(left - 1), o.b.vals().resize(left - 1);
          shift_o(-1);
        }
        CHECK(got == rem, "pruning with " << eps << " removed " << got << " entries instead of " << rem);
        if (rem && o.m.nnz()) ctx.label("pruned");
        break;
      }
      case 12: {  // assemble
        if (o.row) {
          if (s.chance(1, 2)) o.a = CR(mm, nn); else o.a = CR(o.a, true);
          assemble(s, o.a, o.m);
        } else {
          if (s.chance(1, 2)) o.b = CC(mm, nn); else o.b = CC(o.b, true);
          assemble(s, o.b, o.m.T());
        }
        o.grp = std::make_shared<int>(0);
        break;
      }
      case 13: {  // raw arrays
        if (o.row) wrap_raw(s, ctx, o.a, o.m);
        else wrap_raw(s, ctx, o.b, o.m);
        o.grp = std::make_shared<int>(0);
        break;
      }
      case 14: {  // coordinate form in any order
        std::vector<std::pair<int, std::pair<int, V>>> t;
        for (size_t i = 0; i < mm; ++i) for (auto &e : o.m.r[i]) t.push_back({(int)i, e});
        Lcg g{s.below(1u << 20)};
        for (size_t k = t.size(); k > 1; --k) std::swap(t[k - 1], t[g.next() % k]);
        hif::Array<I> ri(nz), ci(nz);
        hif::Array<V> v(nz);
        for (size_t k = 0; k < nz; ++k) ri[k] = t[k].first, ci[k] = t[k].second.first, v[k] = t[k].second.second;
        if (o.row) {
          o.a = CR(); o.a.resize(mm, nn);
          hif::convert_coo2cs(mm, nn, ri, ci, v, o.a.row_start(), o.a.col_ind(), o.a.vals());
        } else {
          o.b = CC(); o.b.resize(mm, nn);
          hif::convert_coo2cs(nn, mm, ci, ri, v, o.b.col_start(), o.b.row_ind(), o.b.vals());
        }
        o.grp = std::make_shared<int>(0);
        break;
      }
      case 15: {  // assignment from another object, or from itself
        O &x = os[s.below(os.size())];
        if (o.row) {
          if (x.row) o.a = x.a; else o.a = CR(x.b);
        } else {
          if (x.row) o.b = CC(x.a); else o.b = x.b;
        }
        if (x.row == o.row) o.grp = x.grp;
        else o.grp = std::make_shared<int>(0);
        o.m = x.m;
        break;
      }
      default: {  // export into the other storage, destroy
        typedef typename std::conditional<true, P, P>::type PP;
        std::vector<PP> ip((o.row ? nn : mm) + 1, PP(-7));
        std::vector<I>  ix(nz);
        std::vector<V>  vv(nz);
        if (o.row) {
          hif::export_compressed_data<CC>(o.a, ip.data(), ix.data(), vv.data());
          o.a.destroy();
          CHECK(o.a.nrows() == 0 && o.a.ncols() == 0 && o.a.nnz() == 0, "a destroyed matrix is not empty");
          o.b = CC(mm, nn, ip.data(), ix.data(), vv.data());
        } else {
          hif::export_compressed_data<CR>(o.b, ip.data(), ix.data(), vv.data());
          o.b.destroy();
          CHECK(o.b.nrows() == 0 && o.b.ncols() == 0 && o.b.nnz() == 0, "a destroyed matrix is not empty");
          o.a = CR(mm, nn, ip.data(), ix.data(), vv.data());
        }
        o.row = !o.row;
        o.grp = std::make_shared<int>(0);
        break;
      }
    }
    for (auto &x : os) verify(x, what);
  }
  ctx.nontrivial(nops >= 2);
  ctx.label(steps > 3 ? "long" : "short");
}
}  // namespace

PBT_PROP(history, 60000, 1500000) {
  switch (src.below(3)) {
    case 0: return history<int, std::ptrdiff_t>(src, ctx);
    case 1: return history<int, int>(src, ctx);
    default: return history<long, long>(src, ctx);
  }
}

// wrapping user arrays with checking: accepted exactly when valid
template <class I, class P>
static void wrapped(Src &src, Ctx &ctx) {
  size_t m = 1 + src.below(10), n = src.chance(1, 2) ? m : 1 + src.below(10);
  Sp     A   = rnd_sp(src, m, n);
  bool   row = src.chance(1, 2);
  Sp     pm  = row ? A : A.T();
  size_t sec = row ? n : m;
  std::vector<P> ip{0};
  std::vector<I> ix;
  std::vector<V> vv;
  for (auto &r : pm.r) {
    for (auto &e : r) ix.push_back(e.first), vv.push_back(e.second);
    ip.push_back((P)ix.size());
  }
  ix.push_back(0); vv.push_back(V(0));
  int  bad = src.below(5);
  bool did = false;
  size_t nz = vv.size() - 1;
  std::vector<size_t> fat;
  for (size_t i = 0; i < pm.m; ++i) if (ip[i + 1] - ip[i] >= 2) fat.push_back(i);
  if (bad == 1 && fat.size()) { size_t i = fat[src.below(fat.size())]; size_t k = ip[i] + src.below(ip[i + 1] - ip[i] - 1); std::swap(ix[k], ix[k + 1]); did = true; }
  if (bad == 2 && fat.size()) { size_t i = fat[src.below(fat.size())]; size_t k = ip[i] + src.below(ip[i + 1] - ip[i] - 1); ix[k + 1] = ix[k]; did = true; }
  if (bad == 3 && nz) { std::vector<size_t> ne; for (size_t i = 0; i < pm.m; ++i) if (ip[i + 1] > ip[i]) ne.push_back(i); size_t i = ne[src.below(ne.size())]; ix[ip[i + 1] - 1] = (I)(sec + src.below(3)); did = true; }
  if (bad == 4) { for (auto &p : ip) p += 1; ix.insert(ix.begin(), 0); vv.insert(vv.begin(), V(0)); did = true; }
  ctx.desc << (row ? "crs " : "ccs ") << "fault=" << (did ? bad : 0) << " ";
  A.describe(ctx.desc);
  bool threw = false;
  try {
    if (row) {
      auto W = hif::wrap_const_crs(m, n, (const P *)ip.data(), (const I *)ix.data(), (const V *)vv.data());
      if (!did) verify_cs(W, A, pm, "wrapped matrix");
    } else {
      auto W = hif::wrap_const_ccs(m, n, (const P *)ip.data(), (const I *)ix.data(), (const V *)vv.data());
      if (!did) verify_cs(W, A, pm, "wrapped matrix");
    }
  } catch (const std::exception &) {
    threw = true;
  }
  CHECK(threw == did, (did ? "an invalid matrix was accepted" : "a valid matrix was rejected"));
  ctx.nontrivial(nz > 1);
  ctx.label(did ? "rejected" : "accepted");
}
PBT_PROP(wrapped, 12000, 300000) {
  if (src.chance(1, 2)) wrapped<int, int>(src, ctx);
  else wrapped<int, std::ptrdiff_t>(src, ctx);
}
