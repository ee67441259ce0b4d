// P18: Matrix Market files: round trips, an independent writer and parser, malformed, truncated and mutated files,
// failing writes and allocations, and the file functions of the C interface.
#include "ref.hpp"
#include "newcount.hpp"
#include <fcntl.h>
#include <libhifir.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
// a file in memory
struct File {
  int         fd;
  std::string path;
  File() : fd(memfd_create("p18", 0)) { path = "/proc/self/fd/" + std::to_string(fd); }
  ~File() { close(fd); }
  void put(const std::string &t) {
    if (ftruncate(fd, 0) || pwrite(fd, t.data(), t.size(), 0) != (ssize_t)t.size()) throw pbt::Discard();
  }
  std::string get() const {
    std::string t(lseek(fd, 0, SEEK_END), ' ');
    if (pread(fd, &t[0], t.size(), 0) != (ssize_t)t.size()) throw pbt::Discard();
    return t;
  }
  const char *c() const { return path.c_str(); }
};
// lowest unused descriptor: changes if an open file is left behind
inline int next_fd() {
  int f = dup(2);
  close(f);
  return f;
}
struct Entry {
  long i, j;
  V    v;
};
struct Coo {
  long               m = 1, n = 1;
  std::vector<Entry> e;
};
typedef std::vector<Entry> Es;
inline Es ordered(const Es &e, bool row) {
  Es t = e;
  std::stable_sort(t.begin(), t.end(), [=](const Entry &a, const Entry &b) { return row ? std::make_pair(a.i, a.j) < std::make_pair(b.i, b.j) : std::make_pair(a.j, a.i) < std::make_pair(b.j, b.i); });
  return t;
}
template <class M>
inline Es entries(const M &A) {
  bool   row = M::ROW_MAJOR;
  size_t ps = row ? A.nrows() : A.ncols(), os = row ? A.ncols() : A.nrows();
  CHECK(A.ind_start().size() == ps + 1 && A.ind_start()[0] == 0, "positions of the primary indices");
  CHECK(A.inds().size() == A.vals().size() && (size_t)A.ind_start()[ps] == A.vals().size() && A.nnz() == A.vals().size(), "numbers of entries differ: " << A.inds().size() << "," << A.vals().size() << "," << A.ind_start()[ps]);
  Es r;
  for (size_t i = 0; i < ps; ++i) {
    CHECK(A.ind_start()[i] <= A.ind_start()[i + 1], "positions decrease");
    long last = 0;
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      long j = (long)A.inds()[k];
      CHECK(j >= last && j < (long)os, "index " << j << " after " << last << " of " << os);
      last = j;
      r.push_back(row ? Entry{(long)i, j, A.vals()[k]} : Entry{j, (long)i, A.vals()[k]});
    }
  }
  return r;
}
inline bool same(const Es &a, const Es &b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (a[k].i != b[k].i || a[k].j != b[k].j || !biteq(a[k].v, b[k].v)) return false;
  return true;
}
inline std::string str(const Es &e) {
  std::ostringstream o;
  o.precision(17);
  for (size_t k = 0; k < e.size() && k < 12; ++k) o << '(' << e[k].i << ',' << e[k].j << ',' << e[k].v << ')';
  return o.str();
}
inline R rnd_real(Src &s) {
  typedef std::numeric_limits<R> L;
  switch (s.below(7)) {
    case 0: return (R)(int)s.range(-9, 9);
    case 1: return s.pick<R>({L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), (R)-0., (R)0., L::epsilon(), (R)(1 + L::epsilon()), L::infinity(), -L::infinity()});
    case 2: {  // any bits
      uint64_t b = (s.below(1ull << 32) << 32) | s.below(1ull << 32);
      R        r;
      std::memcpy(&r, &b, sizeof(R));
      return std::isnan(r) ? (R)1 : r;
    }
    default: return (R)((s.unit() * 2 - 1) * std::pow(10., (double)s.range(-6, 6)));
  }
}
inline V mk(R a, double, double *) { return V(a); }
template <class T = V>
inline typename std::enable_if<!IS_CPLX, T>::type join(R a, R) { return T(a); }
template <class T = V>
inline typename std::enable_if<IS_CPLX, T>::type join(R a, R b) { return T(a, b); }
inline V rnd_val(Src &s) {
  R a = rnd_real(s);
  return join(a, IS_CPLX ? rnd_real(s) : R(0));
}
inline Coo gen_coo(Src &s, bool square) {
  Coo c;
  c.m = 1 + (long)s.below(9);
  c.n = square ? c.m : 1 + (long)s.below(9);
  if (s.chance(1, 30)) c.n = 200 + (long)s.below(2000), c.m = square ? c.n : c.m;
  size_t k = s.below(s.chance(1, 4) ? 60 : 14);
  std::set<std::pair<long, long>> seen;
  while (k--) {
    long i = (long)s.below(c.m), j = (long)s.below(c.n);
    if (seen.insert({i, j}).second) c.e.push_back({i, j, rnd_val(s)});
  }
  return c;
}
template <class M>
inline M build(const Coo &c) {
  M    A(c.m, c.n);
  Es   e   = ordered(c.e, M::ROW_MAJOR);
  auto &p  = A.ind_start();
  A.inds().resize(e.size());
  A.vals().resize(e.size());
  for (size_t k = 0; k < e.size(); ++k) {
    ++p[(M::ROW_MAJOR ? e[k].i : e[k].j) + 1];
    A.inds()[k] = (typename M::index_type)(M::ROW_MAJOR ? e[k].j : e[k].i);
    A.vals()[k] = e[k].v;
  }
  for (size_t i = 1; i < p.size(); ++i) p[i] += p[i - 1];
  return A;
}
// ---- an independent reader -------------------------------------------------------------------------------------------
inline std::vector<std::string> split_ws(const std::string &t) {
  std::istringstream       i(t);
  std::vector<std::string> r;
  std::string              w;
  while (i >> w) r.push_back(w);
  return r;
}
inline V to_val(const std::string &re, const std::string &im) {
  return join((R)std::strtod(re.c_str(), nullptr), IS_CPLX ? (R)std::strtod(im.c_str(), nullptr) : R(0));
}
const char *TYPE = IS_CPLX ? "complex" : "real";
// ---- an independent writer -------------------------------------------------------------------------------------------
inline std::string num(Src &s, R r) {
  char b[512];
  if (r == (R)(int)s.range(-9, 9) && r == std::floor(r) && s.chance(1, 2)) { std::snprintf(b, sizeof b, "%d", (int)r); return b; }
  const char *f = s.pick({"%.17g", "%.16e", "%+.17g", "%.17G", "%.3f", "%.5e", "%.0f"});
  std::snprintf(b, sizeof b, f, (double)r);
  if (std::strlen(b) > 60) std::snprintf(b, sizeof b, "%.17g", (double)r);
  return b;
}
struct Text {
  std::vector<std::string> head, pre, size, body;  // tokens of the header, comment lines, size and data
  Coo                      c;                      // what the file holds
  std::vector<V>           v;
  bool                     sparse = true, symm = false;
  size_t                   per = 1;  // tokens of an entry
};
inline std::string recase(Src &s, std::string t) {
  int k = s.below(4);
  for (size_t i = 0; i < t.size(); ++i) t[i] = (char)(k == 1 ? std::toupper(t[i]) : k == 2 && s.chance(1, 2) ? std::toupper(t[i]) : k == 3 && i == 0 ? std::toupper(t[i]) : t[i]);
  return t;
}
inline void comments(Src &s, Text &t) {
  for (size_t k = s.below(4); k--;) {
    switch (s.below(5)) {
      case 0: t.pre.push_back(""); break;
      case 1: t.pre.push_back("   \t"); break;
      case 2: t.pre.push_back("%"); break;
      case 3: t.pre.push_back("% " + std::string(s.below(900), 'c')); break;
      default: t.pre.push_back("%-5 3 2 1e5 real%%MatrixMarket"); break;
    }
  }
}
inline Text gen_sparse(Src &s, bool dup = false) {
  Text t;
  int  type  = s.chance(1, 2) ? 0 : 1 + (int)s.below(3);
  t.symm     = type != 0;
  Coo c      = gen_coo(s, type != 0);
  t.head     = {"%%MatrixMarket", recase(s, "matrix"), recase(s, "coordinate"), recase(s, TYPE), recase(s, type == 0 ? "general" : type == 1 ? "symmetric" : type == 2 ? "hermitian" : "skew-symmetric")};
  comments(s, t);
  t.c.m = c.m;
  t.c.n = c.n;
  // random order
  for (size_t k = c.e.size(); k > 1; --k) std::swap(c.e[k - 1], c.e[s.below(k)]);
  if (dup && !type && c.e.size()) for (size_t k = 1 + s.below(3); k--;) { Entry e = c.e[s.below(c.e.size())]; e.v = rnd_val(s); c.e.insert(c.e.begin() + s.below(c.e.size() + 1), e); }
  size_t nnz = 0;
  int    part = type ? (int)s.below(3) : 0;
  for (auto e : c.e) {
    // one triangle only: the lower one, the upper one or a mixture
    if (type && e.i != e.j && (e.i < e.j) != (part == 1 || (part == 2 && (e.i + e.j) % 2))) continue;
    if (type == 3 && e.i == e.j) continue;
    R re = std::real(e.v), im = IS_CPLX ? (R)std::imag(e.v) : R(0);
    if (type == 2 && e.i == e.j) im = 0;
    std::string a = num(s, re), b = IS_CPLX ? num(s, im) : "";
    t.body.push_back(std::to_string(e.i + 1));
    t.body.push_back(std::to_string(e.j + 1));
    t.body.push_back(a);
    if (IS_CPLX) t.body.push_back(b);
    Entry f{e.i, e.j, to_val(a, b)};
    t.c.e.push_back(f);
    if (type && e.i != e.j) t.c.e.push_back({e.j, e.i, type == 1 ? f.v : type == 2 ? hif::conjugate(f.v) : -f.v});
    ++nnz;
  }
  t.per  = IS_CPLX ? 4 : 3;
  t.size = {std::to_string(c.m), std::to_string(c.n), std::to_string(nnz)};
  return t;
}
inline Text gen_vector(Src &s) {
  Text t;
  t.sparse = false;
  size_t m = s.below(12), n = 1 + (s.chance(1, 4) ? s.below(3) : 0);
  t.head = {"%%MatrixMarket", recase(s, "matrix"), recase(s, "array"), recase(s, TYPE), recase(s, "general")};
  comments(s, t);
  t.size = {std::to_string(m), std::to_string(n)};
  for (size_t k = 0; k < m * n; ++k) {
    V           x = rnd_val(s);
    std::string a = num(s, std::real(x)), b = IS_CPLX ? num(s, (R)std::imag(x)) : "";
    t.body.push_back(a);
    if (IS_CPLX) t.body.push_back(b);
    if (k < m) t.v.push_back(to_val(a, b));
  }
  t.c.m = (long)m;
  t.c.n = (long)n;
  t.per = IS_CPLX ? 2 : 1;
  return t;
}
inline std::string render(Src &s, const Text &t, size_t ntok = (size_t)-1) {
  std::string o, nl = s.chance(1, 6) ? "\r\n" : "\n";
  for (size_t k = 0; k < t.head.size(); ++k) o += (k ? s.pick({" ", "  ", "\t"}) : "") + t.head[k];
  o += nl;
  for (auto &l : t.pre) o += l + nl;
  if (s.chance(1, 4)) o += " ";
  for (size_t k = 0; k < t.size.size(); ++k) o += (k ? s.pick({" ", "  ", "\t"}) : "") + t.size[k];
  o += nl;
  bool blank = s.chance(1, 8), end = s.chance(3, 4);
  for (size_t k = 0; k < t.body.size() && k < ntok; ++k) {
    bool last = (k + 1) % t.per == 0;
    o += t.body[k];
    if (k + 1 < t.body.size() || end) o += last ? nl + (blank && s.chance(1, 3) ? nl : "") : std::string(s.pick({" ", "   ", "\t"}));
  }
  return o;
}
// ---- the C interface -------------------------------------------------------------------------------------------------
#define C_API(P, T, CT)                                                                                              \
  typedef Lhf##P##MatrixHdl CMat;                                                                                    \
  inline CMat      c_create(int rm, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) { return lhf##P##CreateMatrix(rm, n, p, i, (const CT *)v); } \
  inline LhfStatus c_destroy(CMat m) { return lhf##P##DestroyMatrix(m); }                                            \
  inline LhfStatus c_sparse(const char *f, CMat m) { return lhf##P##ReadSparse(f, m); }                              \
  inline LhfStatus c_vector(const char *f, size_t n, T *v) { return lhf##P##ReadVector(f, n, (CT *)v); }
#if VT == 0
C_API(d, double, double)
#elif VT == 1
C_API(s, float, float)
#elif VT == 2
C_API(z, std::complex<double>, double _Complex)
#else
C_API(c, std::complex<float>, float _Complex)
#endif
struct CMatrix {  // arrays of the exact sizes
  std::vector<LhfIndPtr> p;
  std::vector<LhfInt>    i;
  std::vector<V>         v;
  CMat                   h;
  CMatrix(bool row, size_t n, size_t nnz) : p(n + 1, -5), i(nnz, -5), v(nnz, V(-5)) {
    i.reserve(1);
    v.reserve(1);
    p.shrink_to_fit();
    h = c_create(row, n, p.data(), i.data(), v.data());
  }
  ~CMatrix() { c_destroy(h); }
  bool untouched() const {
    for (auto a : p) if (a != -5) return false;
    for (auto a : i) if (a != -5) return false;
    for (auto a : v) if (!(a == V(-5))) return false;
    return true;
  }
};
inline void drain() { lhfGetErrorMsg(); lhfGetErrorMsg(); }

typedef hif::CRS<V, int>          CRS_i;
typedef hif::CCS<V, int>          CCS_i;
typedef hif::CRS<V, long, size_t> CRS_l;
typedef hif::CCS<V, short, int>   CCS_l;

// reads a file into a matrix which held another one before
template <class M>
inline bool read_into(Src &s, const char *path, M &A, std::string &why) {
  A         = build<M>(gen_coo(s, false));
  size_t m0 = A.nrows(), n0 = A.ncols();
  Es     e0 = entries(A);
  int    fd = next_fd();
  try {
    A.read_mm(path);
  } catch (const std::exception &e) {
    why = e.what();
    CHECK(next_fd() == fd, "a rejected file was left open");
    (void)m0; (void)n0;
    return false;
  }
  CHECK(next_fd() == fd, "a file was left open");
  return true;
}
template <class M>
inline void roundtrip_m(Src &s, Ctx &ctx, const Coo &c) {
  M    A = build<M>(c);
  File f;
  int  fd = next_fd();
  f.put(std::string(s.below(3) * 400, 'x'));  // replaced
  A.write_mm(f.c());
  CHECK(next_fd() == fd, "the written file was left open");
  // the text
  std::string       t = f.get(), line;
  std::stringstream in(t);
  std::getline(in, line);
  CHECK(line == std::string("%%MatrixMarket matrix coordinate ") + TYPE + " general", "first line '" << line << "'");
  while (std::getline(in, line) && line[0] == '%') {}
  auto sz = split_ws(line);
  CHECK(sz.size() == 3 && std::stol(sz[0]) == c.m && std::stol(sz[1]) == c.n && std::stoul(sz[2]) == c.e.size(), "sizes '" << line << "'");
  Es want = ordered(c.e, M::ROW_MAJOR), got;
  while (std::getline(in, line)) {
    auto w = split_ws(line);
    CHECK(w.size() == (IS_CPLX ? 4u : 3u), "entry '" << line << "'");
    got.push_back({std::stol(w[0]) - 1, std::stol(w[1]) - 1, to_val(w[2], IS_CPLX ? w[3] : "")});
  }
  CHECK(same(got, want), "the file holds " << str(got) << " instead of " << str(want));
  // into every storage
  std::string why;
  auto rd = [&](auto B) {
    typedef decltype(B) D;
    CHECK(read_into(s, f.c(), B, why), "a written file was rejected: " << why);
    CHECK((long)B.nrows() == c.m && (long)B.ncols() == c.n, "size " << B.nrows() << "x" << B.ncols());
    CHECK(same(entries(B), ordered(c.e, D::ROW_MAJOR)), "read " << str(entries(B)) << " instead of " << str(ordered(c.e, D::ROW_MAJOR)));
    D F = D::from_mm(f.c());
    CHECK(same(entries(F), entries(B)) && F.nrows() == B.nrows() && F.ncols() == B.ncols(), "from_mm differs");
  };
  rd(CRS_i());
  rd(CCS_i());
  rd(CRS_l());
  rd(CCS_l());
  if (c.e.size() >= 2) ctx.nontrivial();
}
// all functions of the C interface on a file with known contents
inline void c_read(Src &s, const File &f, const Text &t) {
  int    sp = -1, re = -1;
  size_t m = 77, n = 77, nz = 77;
  int    fd = next_fd();
  drain();
  LhfStatus st = lhfQueryMmFile(f.c(), &sp, &re, &m, &n, &nz);
  CHECK(st == LHF_SUCCESS && sp == (int)t.sparse && re == (int)!IS_CPLX && (long)m == t.c.m, "query: status " << st << " kind " << sp << "," << re << " rows " << m);
  if (t.sparse) CHECK((long)n == t.c.n && nz == t.c.e.size(), "query: " << n << " columns and " << nz << " entries instead of " << t.c.n << "," << t.c.e.size());
  else CHECK(n == 0 && nz == 0, "query of a dense file: " << n << "," << nz);
  if (t.sparse) {
    bool    row = s.chance(1, 2);
    size_t  nn  = s.chance(1, 5) ? m + 1 : m;
    CMatrix A(row, nn, nz);
    st = c_sparse(f.c(), A.h);
    if (m != n || nn != m) CHECK(st == LHF_MISMATCHED_SIZES && A.untouched(), "a file of another size: status " << st << (A.untouched() ? "" : ", arrays changed"));
    else {
      CHECK(st == LHF_SUCCESS, "status " << st);
      Es want = ordered(t.c.e, row), got;
      for (size_t i = 0; i < n; ++i)
        for (auto k = A.p[i]; k < A.p[i + 1]; ++k) got.push_back(row ? Entry{(long)i, (long)A.i.at(k), A.v.at(k)} : Entry{(long)A.i.at(k), (long)i, A.v.at(k)});
      CHECK(same(want, got) && A.p[0] == 0, "the C interface read " << str(got) << " instead of " << str(want));
    }
    CHECK(c_sparse(f.c(), nullptr) == LHF_NULL_OBJ, "null handle");
    CMat h = c_create(row, 0, nullptr, nullptr, nullptr);
    st = c_sparse(f.c(), h);
    c_destroy(h);
    CHECK(st == LHF_NULL_OBJ, "status " << st << " of a handle without data");
    V v(0);
    CHECK(c_vector(f.c(), 1, &v) == LHF_HIFIR_ERROR && v == V(0), "a sparse file was read as a vector");
    CHECK(lhfGetErrorMsg() != nullptr, "no error message");
  } else {
    size_t         k = s.chance(1, 5) ? m + 1 : m;
    std::vector<V> v(k, V(-5));
    v.reserve(1);
    st = c_vector(f.c(), k, v.data());
    if (k != m) {
      CHECK(st == LHF_MISMATCHED_SIZES, "status " << st);
      for (auto &x : v) CHECK(x == V(-5), "vector was changed");
    } else {
      CHECK(st == LHF_SUCCESS, "status " << st);
      for (size_t i = 0; i < m; ++i) CHECK(biteq(v[i], t.v[i]), "entry " << i << " is " << v[i] << " instead of " << t.v[i]);
    }
    CMatrix A(true, 2, 2);
    CHECK(c_sparse(f.c(), A.h) == LHF_HIFIR_ERROR && A.untouched(), "a vector file was read as a matrix");
    CHECK(lhfGetErrorMsg() != nullptr, "no error message");
  }
  CHECK(next_fd() == fd, "the C interface left a file open");
}
// every reader has to reject the file
inline void reject(Src &s, Ctx &ctx, const char *path, bool size_ok, const char *what) {
  std::string why;
  CRS_i       A;
  CCS_l       B;
  CHECK(!read_into(s, path, A, why), "CRS accepted: " << what);
  CHECK(!read_into(s, path, B, why), "CCS accepted: " << what);
  int           fd = next_fd();
  hif::Array<V> v(3);
  bool          ok = true;
  try { v.read_mm(path); } catch (const std::exception &) { ok = false; }
  CHECK(!ok, "the vector reader accepted: " << what);
  CMatrix C(s.chance(1, 2), 2 + s.below(4), 4);
  drain();
  LhfStatus st = c_sparse(path, C.h);
  CHECK(st == LHF_HIFIR_ERROR && C.untouched() && lhfGetErrorMsg(), "the C interface returned " << st << " for: " << what);
  V w[2] = {V(-5), V(-5)};
  st     = c_vector(path, 2, w);
  CHECK(st == LHF_HIFIR_ERROR && w[0] == V(-5) && lhfGetErrorMsg(), "the C interface returned " << st << " for a vector: " << what);
  int    sp, re;
  size_t m, n, nz;
  st = lhfQueryMmFile(path, &sp, &re, &m, &n, &nz);
  if (!size_ok) CHECK(st == LHF_HIFIR_ERROR && lhfGetErrorMsg(), "query returned " << st << " for: " << what);
  CHECK(next_fd() == fd, "a rejected file was left open: " << what);
  ctx.label(what);
}
struct Limit {  // absurd sizes fail to allocate instead of using up the memory
  Limit() { pbt_new().limit = 1u << 26; }
  ~Limit() { pbt_new().limit = (size_t)-1; }
};
}  // namespace

PBT_PROP(roundtrip, 3000, 60000) {
  Coo c = gen_coo(src, false);
  int w = src.below(4);
  ctx.desc << c.m << 'x' << c.n << " nnz=" << c.e.size() << " storage " << w << ' ' << str(c.e);
  if (w == 0) roundtrip_m<CRS_i>(src, ctx, c);
  else if (w == 1) roundtrip_m<CCS_i>(src, ctx, c);
  else if (w == 2) roundtrip_m<CRS_l>(src, ctx, c);
  else roundtrip_m<CCS_l>(src, ctx, c);
}

PBT_PROP(vector, 2000, 30000) {
  size_t        n = src.below(30);
  hif::Array<V> v(n);
  for (auto &x : v) x = rnd_val(src);
  File f;
  int  fd = next_fd();
  v.write_mm(f.c());
  ctx.desc << "n=" << n;
  std::string       line;
  std::stringstream in(f.get());
  std::getline(in, line);
  CHECK(line == std::string("%%MatrixMarket matrix array ") + TYPE + " general", "first line '" << line << "'");
  while (std::getline(in, line) && line[0] == '%') {}
  auto sz = split_ws(line);
  CHECK(sz.size() == 2 && std::stoul(sz[0]) == n && sz[1] == "1", "sizes '" << line << "'");
  for (size_t i = 0; i < n; ++i) {
    std::getline(in, line);
    auto w = split_ws(line);
    CHECK(w.size() == (IS_CPLX ? 2u : 1u) && biteq(to_val(w[0], IS_CPLX ? w[1] : ""), v[i]), "entry " << i << " '" << line << "' instead of " << v[i]);
  }
  CHECK(!std::getline(in, line), "trailing '" << line << "'");
  hif::Array<V> u(src.below(5)), w = hif::Array<V>::from_mm(f.c());
  u.read_mm(f.c());
  CHECK(u.size() == n && w.size() == n, "sizes " << u.size() << "," << w.size());
  for (size_t i = 0; i < n; ++i) CHECK(biteq(u[i], v[i]) && biteq(w[i], v[i]), "entry " << i << ": " << u[i] << " instead of " << v[i]);
  CHECK(next_fd() == fd, "a file was left open");
  if (n > 1) ctx.nontrivial();
}

PBT_PROP(foreign, 4000, 80000) {
  bool dup = src.chance(1, 10);
  Text t   = src.chance(1, 4) ? gen_vector(src) : gen_sparse(src, dup);
  File f;
  std::string text = render(src, t);
  f.put(text);
  ctx.desc << text.substr(0, 300);
  std::string why;
  if (t.sparse) {
    auto rd = [&](auto A) {
      typedef decltype(A) D;
      CHECK(read_into(src, f.c(), A, why), "rejected: " << why);
      CHECK((long)A.nrows() == t.c.m && (long)A.ncols() == t.c.n, "size " << A.nrows() << "x" << A.ncols());
      CHECK(same(entries(A), ordered(t.c.e, D::ROW_MAJOR)), "read " << str(entries(A)) << " instead of " << str(ordered(t.c.e, D::ROW_MAJOR)));
    };
    rd(CRS_i());
    rd(CCS_i());
    rd(CRS_l());
    rd(CCS_l());
  } else {
    hif::Array<V> v(src.below(4));
    v.read_mm(f.c());
    CHECK(v.size() == t.v.size(), "size " << v.size());
    for (size_t i = 0; i < v.size(); ++i) CHECK(biteq(v[i], t.v[i]), "entry " << i << " is " << v[i] << " instead of " << t.v[i]);
  }
  c_read(src, f, t);
  if (t.body.size() >= 2 * t.per) ctx.nontrivial();
  if (t.symm) ctx.label("symmetric");
  if (!t.sparse) ctx.label("dense");
}

PBT_PROP(malformed, 4000, 80000) {
  Limit limit;
  File  f;
  Text  t = src.chance(1, 4) ? gen_vector(src) : gen_sparse(src);
  std::string o;
  const char *what    = "";
  bool        size_ok = false, other = false;  // sizes are readable; only the readers of the other kind have to reject
  switch (src.below(t.body.empty() ? 5 : 9)) {
    case 0: what = "missing file"; break;
    case 1: {
      what   = "header";
      int k  = src.below(6);
      if (k == 0) t.head.resize(src.below(5));
      else if (k == 1) t.head[src.below(5)] = src.pick({"x", "%%MatrixMarkt", "integer", "pattern", "dense", "reall", "symmetricx", "%", "matrix-"});
      else if (k == 2) t.head[src.below(5)] = std::string(60 + src.below(300), src.pick({'a', '%'}));
      else if (k == 3) t.head[3] = src.pick({"integer", "pattern"});
      else if (k == 4) t.head[0] = src.pick({"%MatrixMarket", "%%MatrixMarket1", "%", "MatrixMarket"});
      else t.head = {std::string(900, 'y')};
      break;
    }
    case 2: {
      what  = "sizes";
      int k = src.below(5);
      if (k == 0) t.size.resize(src.below(t.size.size()));
      else if (k == 1) t.size[src.below(t.size.size())] = src.pick({"-1", "-2147483648", "x", "4294967297", "99999999999999999999", "2147483648", "-4294967295"});
      else if (k == 2) { t.size.clear(); t.body.clear(); }
      else if (k == 3) { t.size = {"%", "3", "3", "1"}; t.body.clear(); }
      else t.size[0] = "a" + t.size[0];
      if (t.size.empty()) t.body.clear();
      else if (t.size.size() < (t.sparse ? 3u : 2u)) {}
      break;
    }
    case 3: {
      what = "empty or only a header";
      int k = src.below(3);
      o     = k == 0 ? "" : k == 1 ? "\n" : render(src, t).substr(0, src.below(20));
      f.put(o);
      break;
    }
    case 4: {
      what  = "number of entries";
      size_ok = true;
      if (t.sparse) t.size[2] = std::to_string(t.body.size() / t.per + 1 + (src.chance(1, 3) ? src.below(2000000000) : src.below(3)));
      else t.size[0] = std::to_string(t.body.size() / t.per + 1 + (src.chance(1, 3) ? src.below(2000000000) : src.below(3)));
      break;
    }
    case 5: {
      what    = "truncation";
      size_ok = true;
      if (!t.sparse) { t.body.resize(t.v.size() * t.per); if (t.body.empty()) throw pbt::Discard(); }
      size_t keep = src.below(t.body.size());
      t.body.resize(keep);
      break;
    }
    case 6: {
      what    = "garbage";
      size_ok = true;
      size_t lim = t.sparse ? t.body.size() : t.v.size() * t.per;
      if (!lim) throw pbt::Discard();
      t.body[src.below(lim)] = src.pick({"abc", "%", "--1", "x1", "/", "+", "e5", "."});
      break;
    }
    case 7: {
      size_ok = true;
      if (!t.sparse) throw pbt::Discard();
      what = "index out of bounds";
      size_t k = src.below(t.body.size() / t.per);
      bool   c = src.chance(1, 2);
      t.body[k * t.per + c] = src.chance(1, 3) ? std::to_string((c ? t.c.n : t.c.m) + 1) : src.pick({"0", "-1", "2147483648", "4294967297", "-4294967295", "1000000", "99999999999999999999", "18446744073709551617"});
      break;
    }
    default: {
      what    = "another kind of values";
      size_ok = true;
      t.head[3] = IS_CPLX ? "real" : "complex";
    }
  }
  ctx.desc << what << ' ';
  if (std::string(what) == "missing file") {
    int    sp, re;
    size_t m, n, nz;
    const char *path = src.pick({"/nonexistent/p18.mm", "/", ""});
    ctx.desc << path;
    reject(src, ctx, path, true, what);
    LhfStatus st = lhfQueryMmFile(path, &sp, &re, &m, &n, &nz);
    CHECK(st == (path[0] == '/' && !path[1] ? LHF_HIFIR_ERROR : LHF_NULL_OBJ), "query of a missing file returned " << st);
  } else {
    if (std::string(what) != "empty or only a header") {
      o = render(src, t);
      // unreadable sizes must stay unreadable after joining the following lines
      f.put(o);
    }
    ctx.desc << f.get().substr(0, 300);
    (void)other;
    reject(src, ctx, f.c(), size_ok, what);
  }
  ctx.nontrivial();
}

// arbitrary changes of bytes: never a crash, a hang or an invalid matrix, and all readers agree
PBT_PROP(mutated, 6000, 200000) {
  Limit       limit;
  Text        t = src.chance(1, 4) ? gen_vector(src) : gen_sparse(src, src.chance(1, 4));
  std::string o = render(src, t);
  for (size_t k = 1 + src.below(4); k-- && o.size();) {
    size_t a = src.below(o.size()), l = 1 + src.below(src.chance(1, 4) ? 40 : 3);
    switch (src.below(6)) {
      case 0: o.erase(a, l); break;
      case 1: o.insert(a, 1, (char)src.below(256)); break;
      case 2: o[a] = (char)src.below(256); break;
      case 3: o.insert(a, o.substr(src.below(o.size()), l)); break;
      case 4: o.insert(a, src.pick({"-", "9", "0", "\n", " ", "%", "1e400", "nan", "%%MatrixMarket", "\n\n", ".", "99999999", "inf"})); break;
      default: o.insert(a, std::string(src.below(3000), src.pick({'%', ' ', '7', 'a', '\0'}))); break;
    }
  }
  File f;
  f.put(o);
  ctx.desc << o.substr(0, 300);
  std::string why1, why2;
  CRS_i A;
  CCS_l B;
  bool  a = read_into(src, f.c(), A, why1), b = read_into(src, f.c(), B, why2);
  bool  mem = why1.find("memory") != std::string::npos || why2.find("memory") != std::string::npos;
  CHECK(mem || a == b, "CRS " << (a ? "accepted" : "rejected " + why1) << " while CCS " << (b ? "accepted" : "rejected " + why2));
  if (a && b) {
    Es ea = entries(A), eb = entries(B);
    CHECK(A.nrows() == B.nrows() && A.ncols() == B.ncols() && ea.size() == eb.size(), "CRS and CCS differ in size");
    for (auto &e : ea) if (!(e.v == e.v)) e.v = V(7);
    for (auto &e : eb) if (!(e.v == e.v)) e.v = V(7);
    CHECK(same(ordered(eb, true), ea), "CRS " << str(ea) << " and CCS " << str(ordered(eb, true)) << " differ");
    int    sp, re;
    size_t m, n, nz;
    CHECK(lhfQueryMmFile(f.c(), &sp, &re, &m, &n, &nz) == LHF_SUCCESS, "query of a readable file");
    CHECK(sp == 1 && m == A.nrows() && n == A.ncols() && nz == ea.size(), "query " << m << "x" << n << " with " << nz << " entries instead of " << ea.size());
    if (m == n && nz < 100000) {
      CMatrix C(src.chance(1, 2), m, nz);
      CHECK(c_sparse(f.c(), C.h) == LHF_SUCCESS, "the C interface rejected a readable file");
    }
    ctx.label("accepted");
    if (ea.size()) ctx.nontrivial();
  } else {
    int       fd = next_fd(), sp, re;
    size_t    m = 0, n = 0, nz;
    hif::Array<V> v;
    try { v.read_mm(f.c()); ctx.label("vector"); } catch (const std::exception &) { ctx.label("rejected"); }
    lhfQueryMmFile(f.c(), &sp, &re, &m, &n, &nz);
    CHECK(next_fd() == fd, "a file was left open");
    CMatrix C(src.chance(1, 2), 3, 5);
    V       w(-5);
    if (!mem) CHECK(c_sparse(f.c(), C.h) == LHF_HIFIR_ERROR && C.untouched(), "the C interface accepted a rejected file");
    if (v.size() != 1) CHECK(c_vector(f.c(), 1, &w) != LHF_SUCCESS && w == V(-5), "a vector of another size was accepted");
    ctx.nontrivial();
  }
}

// failing allocations, writes and builds without the optional format
PBT_PROP(faults, 2500, 40000) {
  Text t = src.chance(1, 4) ? gen_vector(src) : gen_sparse(src);
  File f;
  f.put(render(src, t));
  int  fd = next_fd();
  ctx.desc << t.size[0] << ' ' << t.size[1] << ' ' << t.body.size() / t.per;
  auto thrown = [&](const std::function<void()> &g) {
    try { g(); } catch (const std::exception &) { return true; }
    return false;
  };
  int k = src.below(4);
  if (k < 2) {
    CRS_i         A;
    CCS_i         B;
    hif::Array<V> v;
    // a request for no bytes may fail without consequences
    auto &s = pbt_new();
    s.count = 0; s.failed = 0;
    s.fail_at = (long)src.below(9);
    bool c = src.chance(1, 2), th = thrown([&]() { if (!t.sparse) v.read_mm(f.c()); else if (c) A.read_mm(f.c()); else B.read_mm(f.c()); });
    long failed = s.failed;
    s.fail_at = -1;
    CHECK(next_fd() == fd, "a file was left open after a failed allocation");
    if (th) CHECK(failed, "rejected without a failure");
    if (!th) {  // then everything is there
      if (!t.sparse) { CHECK(v.size() == t.v.size(), "size " << v.size()); for (size_t i = 0; i < v.size(); ++i) CHECK(biteq(v[i], t.v[i]), "entry"); }
      else if (c) CHECK(same(entries(A), ordered(t.c.e, true)), "CRS after a failed allocation");
      else CHECK(same(entries(B), ordered(t.c.e, false)), "CCS after a failed allocation");
    }
    if (failed) { ctx.nontrivial(); ctx.label(th ? "reported" : "harmless"); }
  } else if (k == 2) {
    CRS_i         A = build<CRS_i>(t.c.m ? t.c : Coo());
    CCS_i         B = build<CCS_i>(t.c.m ? t.c : Coo());
    hif::Array<V> v(3);
    for (auto &x : v) x = V(1);
    const char *p = src.pick({"/dev/full", "/nonexistent/x", "/"});
    CHECK(thrown([&]() { A.write_mm(p); }), "writing a CRS matrix to " << p << " succeeded");
    CHECK(thrown([&]() { B.write_mm(p); }), "writing a CCS matrix to " << p << " succeeded");
    CHECK(thrown([&]() { v.write_mm(p); }), "writing a vector to " << p << " succeeded");
    CHECK(next_fd() == fd, "a file was left open after a failed write");
    ctx.nontrivial();
    ctx.label("write failures");
  } else {
#ifndef HIF_HAS_HDF5
    CRS_i A = build<CRS_i>(t.c.m ? t.c : Coo());
    CCS_i B = build<CCS_i>(t.c.m ? t.c : Coo());
    Es    a = entries(A);
    CHECK(thrown([&]() { A.write_bin(f.c()); }) && thrown([&]() { B.write_bin(f.c()); }), "the native format needs HDF5 to be written");
    CHECK(thrown([&]() { A.read_bin(f.c()); }) && thrown([&]() { B.read_bin(f.c()); }) && thrown([&]() { CRS_i::from_bin(f.c()); }), "the native format needs HDF5 to be read");
    CHECK(same(a, entries(A)) && same(ordered(a, false), entries(B)), "matrices changed by a failed read");
#endif
    ctx.label("native");
  }
}
