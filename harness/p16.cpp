// P16: the containers below the storages (Array, DenseMatrix, IndexValueArray/SparseVector, permutations) against plain
// models under histories of operations; buffers are freed exactly once.
#include "ref.hpp"
#include "newcount.hpp"
#include <memory>

namespace {
struct Lcg {
  uint64_t s;
  uint64_t next() { s = pbt::mix64(s + 0x9e3779b97f4a7c15ull); return s; }
  double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
template <class T>
struct Mk { static T f(Lcg &g) { return (T)((int)(g.next() % 2001) - 1000); } };
template <class T>
struct Mk<std::complex<T>> { static std::complex<T> f(Lcg &g) { return {(T)((int)(g.next() % 2001) - 1000), (T)((int)(g.next() % 201) - 100)}; } };

// ---- arrays
template <class T>
struct Buf {
  std::vector<T>    v;
  std::vector<char> known;
  T *               p = nullptr;
  Buf(size_t n) : v(n, T()), known(n, 0) {}
};
template <class T>
struct Hnd {
  hif::Array<T>            a;
  std::shared_ptr<Buf<T>>  b;  // null: nothing
  size_t                   size = 0;
  bool                     wrap = false;
};
template <class T>
void check(const Hnd<T> &h, const char *what, bool with_at = false) {
  const hif::Array<T> &a = h.a;
  CHECK(a.size() == h.size && a.empty() == (h.size == 0), what << ": size " << a.size() << " instead of " << h.size);
  CHECK(a.capacity() >= a.size(), what << ": capacity " << a.capacity() << " below the size");
  CHECK(a.end() - a.begin() == (std::ptrdiff_t)h.size && a.cend() - a.cbegin() == (std::ptrdiff_t)h.size, what << ": iterator range");
  CHECK((a.status() == hif::DATA_WRAP) == h.wrap, what << ": status " << (int)a.status());
  if (h.size) {
    CHECK(h.wrap || a.status() == hif::DATA_OWN, what << ": status " << (int)a.status());
    CHECK(a.data() == h.b->p && a.begin() == h.b->p, what << ": other data");
    CHECK(&a.front() == a.data() && &a.back() == a.data() + h.size - 1, what << ": front or back");
  }
  for (size_t i = 0; i < h.size; ++i)
    if (h.b->known[i]) CHECK(biteq(a[i], h.b->v[i]) && biteq(a.at(i), h.b->v[i]), what << ": element " << i << " is " << a[i] << " instead of " << h.b->v[i]);
  if (!with_at) return;
  bool thrown = false;
  try { a.at(h.size); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown, what << ": at() accepted an index out of bounds");
}
template <class T>
void arrays(Src &s, Ctx &ctx) {
  const long live0 = pbt_live_arrays();
  Lcg        g{s.below(1u << 20)};
  int        steps = 3 + s.below(25);
  size_t     shared_writes = 0, grown = 0;
  {
    typedef Hnd<T>                  H;
    std::vector<std::unique_ptr<H>> hs;
    std::vector<std::vector<T>>     ext;
    std::set<T *>                   stolen;
    struct Free {
      std::set<T *> &s;
      ~Free() { for (auto p : s) delete[] p; }
    } free_{stolen};
    ext.reserve(64);
    auto fresh = [&](H &h, size_t n, const T *vals, bool known) {
      h.b = std::make_shared<Buf<T>>(std::max(n, h.a.capacity()));
      h.b->p = h.a.data();
      h.size = n;
      h.wrap = false;
      for (size_t i = 0; i < n; ++i) { h.b->known[i] = known; if (known) h.b->v[i] = vals ? vals[i] : T(); }
    };
    for (int st = 0; st < steps; ++st) {
      int  op = hs.empty() ? 100 + s.below(6) : s.chance(1, 4) ? 100 + s.below(6) : s.below(15);
      char what[48];
      snprintf(what, sizeof what, "operation %d (step %d)", op, st);
      ctx.desc << " " << op;
      size_t w = hs.empty() ? 0 : s.below(hs.size());
      size_t n = s.below(12);
      std::vector<T> vals(n);
      for (auto &x : vals) x = Mk<T>::f(g);
      if (op >= 100) {
        if (hs.size() >= 6) { hs.erase(hs.begin() + w); continue; }
        std::unique_ptr<H> h(new H);
        switch (op) {
          case 100: break;
          case 101: h->a = hif::Array<T>(n); fresh(*h, n, nullptr, false); break;
          case 102: h->a = hif::Array<T>(n, T(3)); { std::vector<T> t(n, T(3)); fresh(*h, n, t.data(), true); } break;
          case 103: case 104: {
            ext.push_back(vals);
            ext.back().push_back(T(77));
            if (op == 103) { h->a = hif::Array<T>(n, ext.back().data()); fresh(*h, n, vals.data(), true); }
            else {
              bool c = s.chance(1, 2);
              h->a = c ? hif::Array<T>(n, ext.back().data(), true) : s.chance(1, 2) ? hif::wrap_array<T>(n, ext.back().data()) : hif::wrap_const_array<T>(n, ext.back().data());
              fresh(*h, n, vals.data(), true);
              h->wrap = true;
            }
            break;
          }
          default: {
            hif::Array<int> o(n);
            for (size_t i = 0; i < n; ++i) o[i] = (int)i - 3, vals[i] = T((int)i - 3);
            h->a = hif::Array<T>(o);
            fresh(*h, n, vals.data(), true);
          }
        }
        hs.push_back(std::move(h));
        if (op == 104 && n) CHECK(hs.back()->a.data() == ext.back().data(), what << ": a wrapper copied the data");
        for (auto &x : hs) check(*x, what);
        continue;
      }
      H &h = *hs[w];
      switch (op) {
        case 0: case 1: {  // resize
          if (h.wrap) break;
          bool   presv = s.chance(3, 4);
          size_t m = s.below(24), cap0 = h.a.capacity();
          T *    p0 = h.a.data();
          s.chance(1, 4) && presv ? h.a.resize(m) : h.a.resize(m, presv);
          if (m <= cap0) {
            CHECK(h.a.data() == p0 && h.a.capacity() == cap0, what << ": resizing within the capacity reallocated");
            h.size = m;
          } else {
            auto ob = h.b; size_t os = h.size;
            fresh(h, m, nullptr, false);
            if (presv && ob) for (size_t i = 0; i < std::min(os, m); ++i) { h.b->v[i] = ob->v[i]; h.b->known[i] = ob->known[i]; }
            ++grown;
          }
          break;
        }
        case 2: {
          if (h.wrap) break;
          size_t m = s.below(24), cap0 = h.a.capacity();
          T *    p0 = h.a.data();
          h.a.reserve(m);
          CHECK(h.a.capacity() >= m, what << ": capacity " << h.a.capacity() << " after reserving " << m);
          if (m <= cap0) CHECK(h.a.data() == p0 && h.a.capacity() == cap0, what << ": reserving within the capacity reallocated");
          else {
            auto ob = h.b; size_t os = h.size;
            fresh(h, os, nullptr, false);
            if (ob) for (size_t i = 0; i < os; ++i) { h.b->v[i] = ob->v[i]; h.b->known[i] = ob->known[i]; }
            ++grown;
          }
          break;
        }
        case 3: case 4: case 5: {  // append
          if (h.wrap) break;
          if (op == 3) { vals.resize(1); vals[0] = Mk<T>::f(g); n = 1; }
          size_t cap0 = h.a.capacity(), os = h.size;
          if (op == 3) h.a.push_back(vals[0]);
          else if (op == 4) h.a.push_back(vals.begin(), vals.end());
          else h.a.push_back_n(vals.cbegin(), n);
          if (os + n > cap0) {
            auto ob = h.b;
            fresh(h, os + n, nullptr, false);
            if (ob) for (size_t i = 0; i < os; ++i) { h.b->v[i] = ob->v[i]; h.b->known[i] = ob->known[i]; }
            ++grown;
          } else {
            if (!h.b) h.b = std::make_shared<Buf<T>>(cap0), h.b->p = h.a.data();
            h.size = os + n;
          }
          for (size_t i = 0; i < n; ++i) { h.b->v[os + i] = vals[i]; h.b->known[os + i] = 1; }
          break;
        }
        case 6: case 7: {  // write
          if (!h.size) break;
          size_t i = s.below(h.size);
          T      v = Mk<T>::f(g);
          switch (s.below(5)) {
            case 0: h.a[i] = v; break;
            case 1: h.a.at(i) = v; break;
            case 2: h.a.data()[i] = v; break;
            case 3: h.a.begin()[i] = v; break;
            default: i = h.size - 1; h.a.back() = v;
          }
          h.b->v[i] = v; h.b->known[i] = 1;
          if (h.b.use_count() > 1) ++shared_writes;
          break;
        }
        case 8: case 9: {  // copies
          if (hs.size() >= 6) break;
          std::unique_ptr<H> c(new H);
          bool               clone = op == 9;
          if (clone && h.a.data() == nullptr && h.size) break;
          switch (clone ? 3 : s.below(2)) {
            case 0: { hif::Array<T> t(h.a); c->a = std::move(t); break; }
            case 1: c->a = h.a; break;
            default: { hif::Array<T> t(h.a, true); c->a = std::move(t); }
          }
          if (clone) {
            fresh(*c, h.size, nullptr, false);
            if (h.b) for (size_t i = 0; i < h.size; ++i) { c->b->v[i] = h.b->v[i]; c->b->known[i] = h.b->known[i]; }
            if (h.size) CHECK(c->a.data() != h.a.data(), what << ": a clone shares the data");
          } else { c->b = h.b; c->size = h.size; c->wrap = h.wrap; }
          hs.push_back(std::move(c));
          break;
        }
        case 10: case 11: {  // assignments among existing ones (including itself)
          H &o = *hs[s.below(hs.size())];
          if (op == 10) { h.a = o.a; h.b = o.b; h.size = o.size; h.wrap = o.wrap; }
          else if (&h != &o) {
            h.a = std::move(o.a); h.b = o.b; h.size = o.size; h.wrap = o.wrap;
            o.b.reset(); o.size = 0; o.wrap = false;
          } else
            h.a = std::move(o.a);
          break;
        }
        case 12: {
          H &o = *hs[s.below(hs.size())];
          h.a.swap(o.a);
          std::swap(h.b, o.b); std::swap(h.size, o.size); std::swap(h.wrap, o.wrap);
          break;
        }
        case 13: {
          if (!h.size && h.a.data() == nullptr) break;
          T *p; size_t sz, cap, sz0 = h.a.size(), cap0 = h.a.capacity();
          hif::steal_array_ownership(h.a, p, sz, cap);
          if (h.wrap) { CHECK(!p && !sz && !cap, what << ": the data of a wrapper was given away"); break; }
          CHECK(p == h.b->p && sz == sz0 && cap == cap0, what << ": the data given away is not that of the array");
          stolen.insert(p);
          h.b.reset(); h.size = 0;
          break;
        }
        default: hs.erase(hs.begin() + w);
      }
      for (auto &x : hs) check(*x, what);
    }
    for (auto &x : hs) check(*x, "final state", true);
    for (auto &e : ext) CHECK(biteq(e.back(), T(77)), "data written beyond the end of external data");
  }
  CHECK(pbt_live_arrays() == live0, pbt_live_arrays() - live0 << " buffers are left after all arrays are gone");
  if (shared_writes || grown >= 2) ctx.nontrivial();
}

// ---- dense matrices
void dense(Src &s, Ctx &ctx) {
  typedef hif::DenseMatrix<V> D;
  Lcg    g{s.below(1u << 20)};
  size_t m = s.below(7), n = s.below(7);
  ctx.desc << m << "x" << n;
  const long live0 = pbt_live_arrays();
  {
    D              A;
    std::vector<V> mod(m * n), user(m * n + 1, V(55));
    for (auto &x : mod) x = Mk<V>::f(g);
    int  k = s.below(7);
    Sp   S(m, n);
    auto lab = [&](size_t i, size_t j) -> V & { return mod[i + j * m]; };
    ctx.desc << " from" << k;
    switch (k) {
      case 0:
        if (!n && m) { m = 0; mod.clear(); }
        A = D(m, n);
        if (!m && n) CHECK(A.ncols() == n, "columns");
        for (size_t i = 0; i < mod.size(); ++i) A[i] = mod[i];
        break;
      case 1: A = D(m, n, V(4)); mod.assign(m * n, V(4)); break;
      case 2: case 3:
        std::copy(mod.begin(), mod.end(), user.begin());
        A = D(m, n, user.data(), k == 3);
        break;
      case 4: case 5:
        std::fill(mod.begin(), mod.end(), V(0));
        for (size_t i = 0; i < m; ++i)
          for (size_t j = 0; j < n; ++j)
            if (g.next() % 3 == 0) { V v = Mk<V>::f(g); lab(i, j) = v; S.r[i].push_back({(int)j, v}); }
        if (s.chance(1, 2)) { A = D(3, 2, V(9)); }
        if (k == 4) { auto c = S.crs<int>(); if (s.chance(1, 2)) A = D::from_sparse(c); else A.copy_sparse(c); }
        else { auto c = S.ccs<int>(); if (s.chance(1, 2)) A = D::from_sparse(c); else A.copy_sparse(c); }
        break;
      default: {
        hif::DenseMatrix<int> o(m, n, 0);
        for (size_t i = 0; i < mod.size(); ++i) { o[i] = (int)i - 5; mod[i] = V((int)i - 5); }
        A = D(o);
      }
    }
    auto verify = [&](const D &B, const char *what) {
      CHECK(B.nrows() == m && B.ncols() == n && B.size() == m * n && B.is_squared() == (m == n) && B.empty() == (m * n == 0), what << ": is " << B.nrows() << "x" << B.ncols() << " of size " << B.size());
      for (size_t j = 0; j < n; ++j) {
        auto it = B.col_begin(j);
        for (size_t i = 0; i < m; ++i, ++it) CHECK(biteq(*it, lab(i, j)) && biteq(B(i, j), lab(i, j)) && biteq(B[i + j * m], lab(i, j)), what << ": (" << i << "," << j << ") is " << B(i, j) << " instead of " << lab(i, j));
        CHECK(it == B.col_end(j) && B.col_cend(j) - B.col_cbegin(j) == (std::ptrdiff_t)m, what << ": column iterators");
      }
      for (size_t i = 0; i < m; ++i) {
        auto   it = B.row_begin(i);
        size_t j  = 0;
        for (; it != B.row_end(i); ++it, ++j) CHECK(j < n && biteq(*it, lab(i, j)) && biteq(B.row_cbegin(i)[j], lab(i, j)), what << ": row iterator at (" << i << "," << j << ")");
        CHECK(j == n, what << ": row iterator ends after " << j);
        auto e = B.row_cend(i);
        while (j) { --e; --j; CHECK(biteq(*e, lab(i, j)), what << ": backward row iterator"); }
        CHECK(e == B.row_cbegin(i), what << ": backward row iterator does not reach the start");
      }
    };
    verify(A, "matrix");
    D B(A, true), C(A);
    verify(B, "clone"); verify(C, "shallow copy");
    auto old = mod;
    for (size_t t = 0; t < 5 && m * n; ++t) {
      size_t i = s.below(m), j = s.below(n);
      V      v = Mk<V>::f(g);
      switch (s.below(5)) {
        case 0: A(i, j) = v; break;
        case 1: A[i + j * m] = v; break;
        case 2: A.col_begin(j)[i] = v; break;
        case 3: A.row_begin(i)[j] = v; break;
        default: { auto r = A.row_begin(i); for (size_t q = 0; q < j; ++q) r++; *r = v; }
      }
      lab(i, j) = v;
    }
    verify(A, "written matrix"); verify(C, "shallow copy of the written matrix");
    if (k == 3) CHECK(std::equal(mod.begin(), mod.end(), user.begin()), "writing a wrapper is not visible outside");
    if (k == 2) CHECK(std::equal(old.begin(), old.end(), user.begin()), "writing a copy changed the external data");
    CHECK(biteq(user.back(), V(55)), "written beyond the external data");
    mod.swap(old);
    verify(B, "clone of the written matrix");
    mod.swap(old);
    size_t m2 = s.below(9), n2 = s.below(9);
    bool   sh = s.chance(1, 2);
    D &    Z = sh ? B : A;
    if (k != 3 || sh) {
      C = D();
      Z.resize(m2, n2);
      m = m2; n = n2; mod.assign(m * n, V(0));
      for (size_t j = 0; j < n; ++j)
        for (size_t i = 0; i < m; ++i) lab(i, j) = Mk<V>::f(g), Z(i, j) = lab(i, j);
      verify(Z, "resized matrix");
    }
    if (m * n > 3) ctx.nontrivial();
  }
  CHECK(pbt_live_arrays() == live0, "buffers are left after all matrices are gone");
}

// ---- sparse vectors
template <class I>
void sparse_vec(Src &s, Ctx &ctx) {
  typedef hif::SparseVector<V, I> S;
  Lcg    g{s.below(1u << 20)};
  size_t n = 1 + s.below(20);
  S      v(s.chance(1, 3) ? 0 : n);
  if (v.vals().size() != n) v.resize(n);
  std::vector<V>    vals(n, V(0));
  std::vector<long> idx;
  std::vector<char> del;
  std::vector<long> tag(n, -1);
  for (size_t i = 0; i < n; ++i) vals[i] = v[i] = Mk<V>::f(g);
  size_t step = 0, dups = 0, dels = 0;
  int    steps = 5 + s.below(40);
  ctx.desc << "n=" << n;
  for (int st = 0; st < steps; ++st) {
    int op = s.below(16);
    if (op >= 11) op = 0;
    ctx.desc << " " << op;
    switch (op) {
      case 0: {
        size_t i = s.below(n);
        bool   r = v.push_back((I)i, step);
        CHECK(r == (tag[i] != (long)step), "index " << i << " in step " << step << (r ? " is taken twice" : " is not taken"));
        if (r) { idx.push_back(i); del.push_back(0); tag[i] = step; } else ++dups;
        break;
      }
      case 1: {
        if (idx.empty()) break;
        size_t k = s.below(idx.size());
        v.mark_delete(k);
        del[k] = 1;
        break;
      }
      case 2: {
        v.compress_indices();
        std::vector<long> t;
        for (size_t k = 0; k < idx.size(); ++k) if (!del[k]) t.push_back(idx[k]); else ++dels;
        idx = t;
        del.assign(idx.size(), 0);
        break;
      }
      case 3:  // the order of the marks is by position
        if (std::count(del.begin(), del.end(), 1)) break;
        v.sort_indices();
        std::sort(idx.begin(), idx.end());
        break;
      case 4:
        if (std::count(del.begin(), del.end(), 1)) break;
        v.sort_indices([&](const I a, const I b) { return a > b; });
        std::sort(idx.begin(), idx.end(), std::greater<long>());
        break;
      case 5: case 6:  // next step
        if (std::count(del.begin(), del.end(), 1)) break;
        if (op == 6) { v.restore_cur_state(); for (auto i : idx) tag[i] = -1; }
        else ++step;
        v.reset_counter();
        idx.clear(); del.clear();
        break;
      case 7: {
        V  a = Mk<V>::f(g) / V(16);
        LR big = 0, small = 1;
        for (auto i : idx) if (vals[i] != V(0)) { big = std::max(big, (LR)std::abs(up(vals[i]))); small = std::min(small, (LR)std::abs(up(vals[i]))); }
        if (big > 1e6 || small < 1e-6) break;  // stay within the range of single precision
        v.scale(a);
        for (auto i : idx) {
          CHECK(std::abs(up(v.vals()[i]) - up(a) * up(vals[i])) <= 8 * EPS * std::abs(up(a)) * std::abs(up(vals[i])), "entry " << i << " scaled to " << v.vals()[i]);
          vals[i] = v.vals()[i];
        }
        break;
      }
      case 8: {
        if (idx.empty()) break;
        size_t i = idx[s.below(idx.size())];
        vals[i] = v[i] = Mk<V>::f(g);
        break;
      }
      case 9:
        if (step > 0 && s.chance(1, 4)) {
          size_t n2 = n + s.below(5);
          v.resize(n2);
          v.reset_counter();
          vals.resize(n2, V(0));
          tag.assign(n2, -1);
          n = n2; idx.clear(); del.clear();
          for (size_t i = 0; i < n; ++i) v[i] = vals[i];
        }
        break;
      default: {
        S w(std::move(v));
        v = std::move(w);
      }
    }
    CHECK(v.size() == idx.size() && v.empty() == idx.empty(), "size " << v.size() << " instead of " << idx.size());
    LR n1 = 0, n2 = 0, mx = 0;
    for (size_t k = 0; k < idx.size(); ++k) {
      CHECK((long)v.idx(k) == idx[k] && (long)v.inds()[k] == idx[k], "index at position " << k << " is " << v.idx(k) << " instead of " << idx[k]);
      CHECK(biteq(v.val(k), vals[idx[k]]) && biteq(v[idx[k]], vals[idx[k]]), "value of index " << idx[k] << " is " << v.val(k));
      LR a = std::abs(up(v.val(k)));
      n1 += a; n2 += a * a; mx = std::max(mx, a);
    }
    LR t = 8 * (idx.size() + 2) * EPS;
    CHECK(std::abs(v.norm1() - n1) <= t * n1, "1-norm " << v.norm1() << " instead of " << n1);
    CHECK(std::abs(v.norm2_sq() - n2) <= t * n2, "squared 2-norm " << v.norm2_sq() << " instead of " << n2);
    CHECK(std::abs(std::abs(up(v.norm2())) - std::sqrt(n2)) <= t * std::sqrt(n2), "2-norm " << v.norm2() << " instead of " << std::sqrt(n2));
    CHECK(std::abs(v.max_mag() - mx) <= 4 * EPS * mx, "largest magnitude " << v.max_mag() << " instead of " << mx);
    const size_t none = std::numeric_limits<size_t>::max();
    size_t       im   = v.imax_mag();
    if (idx.empty()) CHECK(im == none, "index of the largest entry of an empty vector");
    else {
      CHECK(std::count(idx.begin(), idx.end(), (long)im), "index " << im << " of the largest entry is not one of the vector's");
      CHECK(std::abs(up(vals[im])) >= mx * (1 - 4 * EPS), "entry " << im << " is not the largest");
    }
    size_t bd = s.below(n + 1);
    auto   op2 = [&](const I i) { return (size_t)i < bd; };
    LR     mb = -1;
    long   first = -1;
    for (auto i : idx) if ((size_t)i < bd) { mb = std::max(mb, (LR)std::abs(up(vals[i]))); if (first < 0) first = i; }
    size_t ib = v.imax_mag(op2), fi = v.find_if(op2);
    if (mb < 0) CHECK(ib == none && fi == none, "an entry was found outside of the bound");
    else {
      CHECK(ib < bd && std::count(idx.begin(), idx.end(), (long)ib) && std::abs(up(vals[ib])) >= mb * (1 - 4 * EPS), "bounded largest entry " << ib << " (bound " << bd << ")");
      CHECK((long)fi == first, "first entry within the bound is " << fi << " instead of " << first);
    }
  }
  if (dups && dels) ctx.nontrivial();
}
// scaling alone, with a reference
void sv_scale(Src &s, Ctx &ctx) {
  Lcg    g{s.below(1u << 20)};
  size_t n = 1 + s.below(20);
  hif::SparseVector<V, int> v(n);
  std::vector<V>            vals(n);
  for (size_t i = 0; i < n; ++i) vals[i] = v[i] = Mk<V>::f(g);
  std::set<size_t> in;
  for (size_t k = 0; k < n; ++k) { size_t i = s.below(n); if (v.push_back(i, 3)) in.insert(i); }
  V a = Mk<V>::f(g) / V(7);
  v.scale(a);
  for (size_t i = 0; i < n; ++i) {
    X e = in.count(i) ? up(vals[i]) * up(a) : up(vals[i]);
    CHECK(std::abs(up(v[i]) - e) <= 8 * EPS * std::abs(e), "entry " << i << (in.count(i) ? " (of the vector)" : " (not of the vector)") << " is " << v[i] << " after scaling by " << a);
  }
  if (in.size() < n) ctx.nontrivial();
}

// ---- permutations
template <class I>
void perms(Src &s, Ctx &ctx) {
  size_t n = s.below(16);
  Lcg    g{s.below(1u << 20)};
  std::vector<I> p(n);
  std::iota(p.begin(), p.end(), I(0));
  hif::BiPermMatrix<I> P(n);
  int start = s.below(4);
  if (start == 0) P.make_eye();
  else {
    for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[g.next() % i]);
    hif::Array<I> a(n);
    std::copy(p.begin(), p.end(), a.begin());
    if (start == 1) P = hif::BiPermMatrix<I>(a, s.chance(1, 2));
    else if (start == 2) P = hif::BiPermMatrix<I>(hif::PermMatrix<I>(a), s.chance(1, 2));
    else for (size_t i = 0; i < n; ++i) P[i] = p[i];
    P.build_inv();
  }
  ctx.desc << "n=" << n << " start" << start;
  size_t ch = 0;
  auto   verify = [&](const hif::BiPermMatrix<I> &Q, const std::vector<I> &p, const char *what) {
    CHECK(Q.size() == p.size() && Q().size() == p.size() && Q.inv().size() == p.size(), what << ": size");
    bool eye = true;
    for (size_t i = 0; i < p.size(); ++i) {
      CHECK(Q[i] == p[i] && Q()[i] == p[i], what << ": entry " << i << " is " << Q[i] << " instead of " << p[i]);
      CHECK(Q.inv(p[i]) == (I)i && Q.inv()[p[i]] == (I)i, what << ": inverse entry " << p[i] << " is " << Q.inv(p[i]) << " instead of " << i);
      if (p[i] != (I)i) eye = false;
    }
    CHECK(Q.is_eye() == eye, what << ": identity is " << Q.is_eye());
  };
  verify(P, p, "permutation");
  for (int st = 0, e = s.below(20); st < e; ++st) {
    int op = s.below(6);
    ctx.desc << " " << op;
    if (op <= 1 && n) {
      size_t i = s.below(n), j = s.below(n);
      P.interchange(i, j);
      std::swap(p[i], p[j]);
      if (i != j) ++ch;
    } else if (op <= 3 && n) {
      size_t i = s.below(n), j = s.below(n);
      P.interchange_inv(i, j);
      size_t a = std::find(p.begin(), p.end(), (I)i) - p.begin(), b = std::find(p.begin(), p.end(), (I)j) - p.begin();
      std::swap(p[a], p[b]);
      if (i != j) ++ch;
    } else if (op == 4) {
      bool                 clone = s.chance(1, 2);
      hif::BiPermMatrix<I> Q(P, clone);
      verify(Q, p, "copy");
      if (n > 1) {
        auto q = p;
        Q.interchange(0, n - 1);
        std::swap(q[0], q[n - 1]);
        verify(Q, q, "changed copy");
        if (!clone) p = q;
      }
      verify(P, p, "copied permutation");
    } else {
      hif::BiPermMatrix<I> Q(std::move(P));
      P = std::move(Q);
      if (s.chance(1, 4)) { n = s.below(16); P.resize(n); P.make_eye(); p.resize(n); std::iota(p.begin(), p.end(), I(0)); }
    }
    verify(P, p, "permutation after an operation");
  }
  if (ch >= 2 && n > 3) ctx.nontrivial();
}
}  // namespace

PBT_PROP(array, 40000, 1500000) {
  switch (src.below(4)) {
    case 0: ctx.desc << "int"; arrays<int>(src, ctx); break;
    case 1: ctx.desc << "idx"; arrays<std::ptrdiff_t>(src, ctx); break;
    default: ctx.desc << "val"; arrays<V>(src, ctx);
  }
}
PBT_PROP(dense, 15000, 500000) { dense(src, ctx); }
PBT_PROP(sparsevec, 20000, 700000) { src.chance(1, 2) ? sparse_vec<int>(src, ctx) : sparse_vec<std::int64_t>(src, ctx); }
PBT_PROP(svscale, 5000, 200000) { sv_scale(src, ctx); }
PBT_PROP(perm, 15000, 500000) { src.chance(1, 2) ? perms<int>(src, ctx) : perms<std::int64_t>(src, ctx); }
