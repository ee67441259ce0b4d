// P15: row and column storages augmented with linked lists in the other direction, against a plain model, under histories
// of assembling (entry by entry, interleaved with interchanges as during elimination), building from other storages,
// interchanging and deferring columns (rows), copying and moving.
#include "ref.hpp"
#include <memory>

namespace {
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
typedef std::vector<std::vector<std::pair<int, V>>> Rows;  // primary entries (rows of a CRS, columns of a CCS)

inline Sp rnd_sp(Src &s, size_t m, size_t n) {
  Sp  A(m, n);
  int den = s.pick({30, 10, 60, 100, 0});
  int val = s.below(4);
  Lcg g{s.below(1u << 30)};
  for (size_t i = 0; i < m; ++i) {
    if (g.unit() < 0.1) continue;
    for (size_t j = 0; j < n; ++j)
      if (g.unit() * 100 < den) {
        double a = g.unit(), b = g.unit();
        double re = val == 0 ? (double)(int)(a * 9) - 4 : val == 1 ? a - 0.5 : std::ldexp(0.5 + 0.5 * a, (int)(b * 40) - 30) * (g.next() & 1 ? 1 : -1);
        double im = g.next() % 3 ? (double)(int)(g.unit() * 5) - 2 : 0;
        if (val == 1 && g.unit() < 0.2) re = im = 0;
        A.r[i].push_back({(int)j, Down<V>::f(std::complex<LR>(re, im))});
      }
  }
  return A;
}

template <class AUG>
struct Tr;
template <class I, class P>
struct Tr<hif::AugCRS<hif::CRS<V, I, P>>> {
  typedef hif::AugCRS<hif::CRS<V, I, P>> T;
  typedef hif::CRS<V, I, P>              PS;
  typedef hif::CCS<V, I, P>              SS;
  static const bool ROW = true;
  static void begin(T &A) { A.begin_assemble_rows(); }
  static void end(T &A) { A.end_assemble_rows(); }
  template <class It>
  static void push(T &A, size_t i, It f, It l, const hif::Array<V> &v) { A.push_back_row(i, f, l, v); }
  template <class It>
  static void push2(T &A, size_t i, It f, It l, const hif::Array<V> &v, It f2, It l2, const hif::Array<V> &v2) { A.push_back_row(i, f, l, v, f2, l2, v2); }
  static void swap(T &A, size_t i, size_t k) { A.interchange_cols(i, k); }
  static void defer(T &A, size_t i, size_t k) { A.defer_col(i, k); }
  static P    start(const T &A, size_t i) { return A.start_col_id(i); }
  static P    next(const T &A, P id) { return A.next_col_id(id); }
  static long prim(const T &A, P id) { return A.row_idx(id); }
  static V    val(const T &A, P id) { return A.val_from_col_id(id); }
  static size_t cnt(const T &A, size_t i) { return A.nnz_in_col(i); }
  static P    last(const T &A, size_t i) { return A.col_end()[i]; }
  static T    make(size_t np, size_t ns, size_t nz) { return T(np, ns, nz); }
};
template <class I, class P>
struct Tr<hif::AugCCS<hif::CCS<V, I, P>>> {
  typedef hif::AugCCS<hif::CCS<V, I, P>> T;
  typedef hif::CCS<V, I, P>              PS;
  typedef hif::CRS<V, I, P>              SS;
  static const bool ROW = false;
  static void begin(T &A) { A.begin_assemble_cols(); }
  static void end(T &A) { A.end_assemble_cols(); }
  template <class It>
  static void push(T &A, size_t i, It f, It l, const hif::Array<V> &v) { A.push_back_col(i, f, l, v); }
  template <class It>
  static void push2(T &A, size_t i, It f, It l, const hif::Array<V> &v, It f2, It l2, const hif::Array<V> &v2) { A.push_back_col(i, f, l, v, f2, l2, v2); }
  static void swap(T &A, size_t i, size_t k) { A.interchange_rows(i, k); }
  static void defer(T &A, size_t i, size_t k) { A.defer_row(i, k); }
  static P    start(const T &A, size_t i) { return A.start_row_id(i); }
  static P    next(const T &A, P id) { return A.next_row_id(id); }
  static long prim(const T &A, P id) { return A.col_idx(id); }
  static V    val(const T &A, P id) { return A.val_from_row_id(id); }
  static size_t cnt(const T &A, size_t i) { return A.nnz_in_row(i); }
  static P    last(const T &A, size_t i) { return A.row_end()[i]; }
  static T    make(size_t np, size_t ns, size_t nz) { return T(ns, np, nz); }
};
typedef std::vector<std::vector<std::pair<int, V>>> Rows;  // primary entries

template <class PS, class SS>
struct Cv;
template <class I, class P>
struct Cv<hif::CRS<V, I, P>, hif::CCS<V, I, P>> {
  static void set(hif::CRS<V, I, P> &p, hif::CCS<V, I, P> &q, const Sp &A) { p = A.template crs<I, P>(); q = A.template ccs<I, P>(); }
};
template <class I, class P>
struct Cv<hif::CCS<V, I, P>, hif::CRS<V, I, P>> {
  static void set(hif::CCS<V, I, P> &p, hif::CRS<V, I, P> &q, const Sp &A) { p = A.template ccs<I, P>(); q = A.template crs<I, P>(); }
};

template <class AUG>
struct Obj {
  AUG                  a;
  size_t               np = 0, ns = 0, pushed = 0;
  Rows                 m;
  std::shared_ptr<int> grp = std::make_shared<int>(0);
};

template <class AUG>
void verify(const Obj<AUG> &o, const char *what) {
  typedef Tr<AUG>                   T;
  typedef typename AUG::indptr_type P;
  const AUG &a = o.a;
  CHECK((T::ROW ? a.nrows() : a.ncols()) == o.np && (T::ROW ? a.ncols() : a.nrows()) == o.ns, what << ": is " << a.nrows() << "x" << a.ncols());
  size_t nz = 0;
  for (auto &r : o.m) nz += r.size();
  CHECK(a.inds().size() == nz && a.vals().size() == nz, what << ": " << a.inds().size() << "/" << a.vals().size() << " entries instead of " << nz);
  if (o.np && o.pushed == o.np) CHECK(a.nnz() == nz, what << ": nnz " << a.nnz() << " instead of " << nz);
  if (o.np) {
    CHECK(a.ind_start().size() >= o.pushed + 1 && a.ind_start()[0] == 0, what << ": pointer array");
    for (size_t i = 0; i < o.pushed; ++i) {
      size_t k = a.ind_start()[i];
      CHECK((size_t)(a.ind_start()[i + 1] - a.ind_start()[i]) == o.m[i].size(), what << ": " << a.ind_start()[i + 1] - a.ind_start()[i] << " entries in primary entry " << i << " instead of " << o.m[i].size());
      for (auto &e : o.m[i]) {
        CHECK((long)a.inds()[k] == e.first, what << ": index " << a.inds()[k] << " instead of " << e.first << " in primary entry " << i);
        CHECK(biteq(a.vals()[k], e.second), what << ": value " << a.vals()[k] << " instead of " << e.second << " at index " << e.first << " of primary entry " << i);
        ++k;
      }
    }
  }
  // the lists in the other direction
  Rows t(o.ns);
  for (size_t i = 0; i < o.m.size(); ++i)
    for (auto &e : o.m[i]) t[e.first].push_back({(int)i, e.second});
  for (size_t j = 0; j < o.ns; ++j) {
    P id = T::start(a, j), last = id;
    CHECK(id == a.start_aug_id(j), what << ": start ids differ");
    CHECK(T::cnt(a, j) == t[j].size() && a.nnz_in_secondary(j) == t[j].size(), what << ": list " << j << " counts " << T::cnt(a, j) << " instead of " << t[j].size());
    for (auto &e : t[j]) {
      CHECK(!AUG::is_nil(id), what << ": list " << j << " ends early");
      CHECK(T::prim(a, id) == e.first && (long)a.primary_idx(id) == e.first, what << ": list " << j << " visits " << T::prim(a, id) << " instead of " << e.first);
      size_t vp = a.val_pos_idx(id);
      CHECK(vp >= (size_t)a.ind_start()[e.first] && vp < (size_t)a.ind_start()[e.first + 1] && (size_t)a.inds()[vp] == j, what << ": node of (" << e.first << "," << j << ") refers to position " << vp);
      CHECK(biteq(T::val(a, id), e.second) && biteq(a.val_from_aug_id(id), e.second), what << ": list " << j << " has " << T::val(a, id) << " instead of " << e.second << " at " << e.first);
      last = id;
      P nx = T::next(a, id);
      CHECK(nx == a.next_aug_id(id), what << ": next ids differ");
      id = nx;
    }
    CHECK(AUG::is_nil(id), what << ": list " << j << " does not end");
    CHECK(T::last(a, j) == last, what << ": list " << j << " ends at " << T::last(a, j) << " instead of " << last);
  }
}
inline void msort(Rows &m) {
  for (auto &r : m) std::sort(r.begin(), r.end(), [](const std::pair<int, V> &x, const std::pair<int, V> &y) { return x.first < y.first; });
}
inline int max_ind(const Rows &m) {
  int k = -1;
  for (auto &r : m)
    for (auto &e : r) k = std::max(k, e.first);
  return k;
}

template <class AUG>
void history(Src &s, Ctx &ctx) {
  typedef Tr<AUG>                  T;
  typedef Obj<AUG>                 O;
  typedef typename T::PS           PS;
  typedef typename T::SS           SS;
  typedef typename AUG::index_type I;
  size_t np = s.below(14), ns = s.below(14), ex = s.chance(1, 2) ? s.below(5) : 0;
  Sp     src = rnd_sp(s, np, ns);
  src.n = ns += ex;
  std::vector<O> os(1);
  os[0].np = np; os[0].ns = ns;
  Rows todo = src.r;
  ctx.desc << (T::ROW ? "crs " : "ccs ");
  src.describe(ctx.desc);
  const size_t nz   = src.nnz();
  int          init = nz ? s.below(7) : 0;
  ctx.desc << " init" << init;
  bool incremental = false;
  switch (init) {
    case 1: case 2: case 3: case 4: case 5: {
      PS p; SS q;
      if (T::ROW) { Cv<PS, SS>::set(p, q, src); } else { Cv<PS, SS>::set(p, q, src.T()); }
      if (init == 1) os[0].a.build_aug(p, true);
      else if (init == 2) os[0].a.build_aug(p, false);
      else if (init == 3) os[0].a.build_aug(std::move(p));
      else os[0].a.build_aug(q);
      if (init == 5) {  // over an existing object
        AUG b = T::make(np + 1, ns + 2, 3);
        b.build_aug(q);
        os[0].a = b;
      }
      os[0].m      = src.r;
      os[0].pushed = np;
      break;
    }
    default:
      os[0].a = s.chance(1, 2) ? T::make(np, ns, nz) : T::make(np, ns, 0);
      if (s.chance(1, 3)) os[0].a.reserve(s.below(2 * nz + 2));
      T::begin(os[0].a);
      os[0].m.assign(np, {});
      incremental = true;
  }
  verify(os[0], "initial matrix");
  size_t moved = 0, pushes = 0;
  int    steps = 1 + s.below(20);
  std::vector<int> where(ns);  // current position of the original index during assembling
  std::iota(where.begin(), where.end(), 0);
  auto push = [&](O &o) {
    size_t i = o.pushed;
    if (i >= o.np) return;
    std::vector<std::pair<int, V>> r;
    for (auto &e : todo[i]) r.push_back({where[e.first], e.second});
    std::sort(r.begin(), r.end(), [](const std::pair<int, V> &x, const std::pair<int, V> &y) { return x.first < y.first; });
    hif::Array<V>  v(o.ns, V(7)), w(o.ns, V(-9));
    std::vector<I> idx;
    for (auto &e : r) { idx.push_back(e.first); v[e.first] = w[e.first] = e.second; }
    if (s.chance(1, 2)) {
      size_t c = s.below(idx.size() + 1);
      for (size_t k = 0; k < idx.size(); ++k) (k < c ? w : v)[idx[k]] = V(55);
      T::push2(o.a, i, idx.begin(), idx.begin() + c, v, idx.begin() + c, idx.end(), w);
    } else
      T::push(o.a, i, idx.begin(), idx.end(), v);
    o.m[i] = r;
    ++o.pushed;
    if (r.size()) ++pushes;
  };
  for (int st = 0; st < steps; ++st) {
    size_t w = incremental ? 0 : s.below(os.size());
    int    op = s.below(10);
    ctx.desc << " " << op << ":";
    char what[64];
    snprintf(what, sizeof what, "operation %d (step %d)", op, st);
    O &o = os[w];
    switch (op) {
      case 0: case 1: case 2: case 3: case 4: {
        if (!o.ns) break;
        size_t i = s.below(o.ns), k = s.below(o.ns);
        ctx.desc << i << "<>" << k;
        T::ROW || true ? (s.chance(1, 2) ? T::swap(o.a, i, k) : o.a.interchange_entries(i, k)) : void();
        auto   g = o.grp;
        for (auto &x : os)
          if (x.grp == g) {
            for (auto &r : x.m)
              for (auto &e : r) { if ((size_t)e.first == i) { e.first = k; if (i != k) ++moved; } else if ((size_t)e.first == k) { e.first = i; ++moved; } }
            msort(x.m);
          }
        if (incremental) for (auto &x : where) x = (size_t)x == i ? k : (size_t)x == k ? i : x;
        break;
      }
      case 5: case 6: {
        int lastnz = max_ind(o.m);
        if (lastnz < 0 || lastnz + 1 >= (int)o.ns) break;
        if (incremental) {  // later entries must not use the destination either
          for (size_t i = o.pushed; i < o.np; ++i) for (auto &e : todo[i]) lastnz = std::max(lastnz, where[e.first]);
          if (lastnz + 1 >= (int)o.ns) break;
        }
        size_t from = s.below(lastnz + 1), to = lastnz + 1 + s.below(o.ns - lastnz - 1);
        ctx.desc << from << "->" << to;
        s.chance(1, 2) ? T::defer(o.a, from, to) : o.a.defer_entry(from, to);
        auto g = o.grp;
        for (auto &x : os)
          if (x.grp == g) {
            for (auto &r : x.m) for (auto &e : r) if ((size_t)e.first == from) { e.first = to; ++moved; }
            msort(x.m);
          }
        if (incremental) for (auto &x : where) x = (size_t)x == from ? to : (size_t)x == to ? from : x;
        break;
      }
      case 7:
        if (incremental) { push(o); if (o.pushed == o.np) { T::end(o.a); incremental = false; } break; }
        // fall through
      case 8: {
        if (os.size() >= 3 || incremental) break;
        bool clone = s.chance(1, 2);
        O    c;
        c.np = o.np; c.ns = o.ns; c.pushed = o.pushed; c.m = o.m;
        c.a = AUG(o.a, clone);
        if (!clone) c.grp = o.grp;
        os.push_back(c);
        break;
      }
      default: {
        if (incremental) { push(o); if (o.pushed == o.np) { T::end(o.a); incremental = false; } break; }
        AUG t(std::move(o.a));
        o.a = AUG();
        o.a = std::move(t);
      }
    }
    for (auto &x : os) verify(x, what);
  }
  if (incremental) {
    while (os[0].pushed < np) push(os[0]);
    T::end(os[0].a);
    verify(os[0], "assembled matrix");
  }
  ctx.label(init == 0 || init == 6 ? "assembled" : init <= 3 ? "built" : "converted");
  if (moved >= 2 && nz >= 4) ctx.nontrivial();
}
}  // namespace

PBT_PROP(history, 60000, 4000000) {
  switch (src.below(6)) {
    case 0: history<hif::AugCRS<hif::CRS<V, int>>>(src, ctx); break;
    case 1: history<hif::AugCCS<hif::CCS<V, int>>>(src, ctx); break;
    case 2: history<hif::AugCRS<hif::CRS<V, int, int>>>(src, ctx); break;
    case 3: history<hif::AugCCS<hif::CCS<V, int, int>>>(src, ctx); break;
    case 4: history<hif::AugCRS<hif::CRS<V, std::int64_t>>>(src, ctx); break;
    default: history<hif::AugCCS<hif::CCS<V, std::int64_t>>>(src, ctx);
  }
}
