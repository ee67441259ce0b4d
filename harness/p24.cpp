// P24: diagnostics. Everything the library prints goes through HIF_STDOUT/HIF_STDERR, which are captured
// here: verbose flags must select exactly their own messages, change nothing else, and what is printed
// must agree with what the object reports afterwards.
#include <string>
// (shared by the translation units: the printing functions of the library are inline)
struct P24Sink {
  std::string *out = nullptr, *err = nullptr;
};
inline P24Sink &p24_sink() {
  static thread_local P24Sink s;
  return s;
}
inline void p24_put(std::string *d, const char *m) { if (d) { *d += m; *d += '\x01'; } }
#define HIF_STDOUT(m) p24_put(p24_sink().out, m)
#define HIF_STDERR(m) p24_put(p24_sink().err, m)
#include "fact.hpp"
#include <algorithm>
namespace {
typedef hif::HIF<V, int, std::ptrdiff_t> H24;
typedef std::vector<std::string>         Msgs;
struct Grab {
  std::string out, err;
  Grab() { p24_sink().out = &out, p24_sink().err = &err; }
  ~Grab() { p24_sink() = P24Sink(); }
};
inline Msgs split(const std::string &s) {
  Msgs   r;
  size_t b = 0;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\x01') r.push_back(s.substr(b, i - b)), b = i + 1;
  return r;
}
// durations are not reproducible: "0.25s" -> "T"
inline std::string no_time(const std::string &m) {
  std::string r;
  for (size_t i = 0; i < m.size();) {
    if (isdigit((unsigned char)m[i]) && (i == 0 || m[i - 1] == ' ')) {
      size_t j = i;
      while (j < m.size() && (isdigit((unsigned char)m[j]) || m[j] == '.' || m[j] == 'e' || ((m[j] == '-' || m[j] == '+') && m[j - 1] == 'e'))) ++j;
      if (j < m.size() && m[j] == 's' && (j + 1 == m.size() || !isalnum((unsigned char)m[j + 1]))) {
        r += 'T', i = j + 1;
        continue;
      }
      r.append(m, i, j - i), i = j;
      continue;
    }
    r += m[i++];
  }
  return r;
}
inline bool starts(const std::string &m, const char *p) { return m.compare(0, strlen(p), p) == 0; }
inline std::string bytes(const hif::Array<V> &x) { return std::string((const char *)x.data(), x.size() * sizeof(V)); }
template <class CS>
inline std::string csbytes(const CS &A) {
  std::string r = std::to_string(A.nrows()) + "," + std::to_string(A.ncols()) + ":";
  if (A.ind_start().size() > A.primary_size()) {
    r.append((const char *)A.ind_start().data(), sizeof(A.ind_start()[0]) * (A.primary_size() + 1));
    r.append((const char *)A.inds().data(), sizeof(int) * A.nnz());
    r.append((const char *)A.vals().data(), sizeof(V) * A.nnz());
  }
  return r;
}
struct Outcome {
  std::string state;  // everything the object holds or computes
  Msgs        out, err;
  std::string fail;
};
inline std::string snapshot(H24 &h, size_t n) {
  std::ostringstream o;
  o << h.levels() << ' ' << h.nnz() << ' ' << h.nnz_ef() << ' ' << h.nnz_ldu() << ' ' << h.rank() << ' ' << h.schur_rank() << ' ' << h.schur_size();
  for (int i = 0; i < 6; ++i) o << ' ' << h.stats(i);
  for (auto &p : h.precs()) {
    o << '|' << p.m << ' ' << p.n << csbytes(p.L_B) << csbytes(p.U_B) << csbytes(p.E) << csbytes(p.F);
    o.write((const char *)p.d_B.data(), sizeof(V) * p.m);
    o.write((const char *)p.s.data(), sizeof(p.s[0]) * p.n);
    o.write((const char *)p.t.data(), sizeof(p.t[0]) * p.n);
    o.write((const char *)p.p.data(), sizeof(int) * p.n);
    o.write((const char *)p.q.data(), sizeof(int) * p.n);
  }
  hif::Array<V> b(n), x(n);
  for (size_t i = 0; i < n; ++i) b[i] = V(R(1 + (int)(i % 5))) / R(3);
  h.solve(b, x), o << bytes(x);
  h.solve(b, x, true), o << bytes(x);
  h.mmultiply(b, x), o << bytes(x);
  return o.str();
}
inline Outcome run24(H24 &h, const FactCase &c, int verbose) {
  Outcome  r;
  FactCase cc = c;
  cc.p.verbose = verbose;
  size_t k = 0;
  {
    Grab g;
    try {
      do_factorize(h, cc);
    } catch (const std::exception &e) {
      r.fail = e.what();
      r.fail = r.fail.substr(0, r.fail.find("stack trace"));
    }
    r.out = split(g.out), r.err = split(g.err);
  }
  (void)k;
  if (r.fail.empty()) {
    Grab g;
    r.state = snapshot(h, c.g.n);
    CHECK(g.out.empty() && g.err.empty(), "solving or multiplying printed something: " << g.out << g.err);
  }
  return r;
}
inline Msgs cooked(const Msgs &m) {
  Msgs r;
  for (auto &s : m)
    if (s.find("HIF: Hybrid Incomplete Factorization") == std::string::npos) r.push_back(no_time(s));
  return r;
}
inline std::string diff(const Msgs &a, const Msgs &b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    std::string x = i < a.size() ? a[i] : "<nothing>", y = i < b.size() ? b[i] : "<nothing>";
    if (x != y) return "message " + std::to_string(i) + ": \"" + x + "\" / \"" + y + "\"";
  }
  return "";
}
inline FactCase gen24(Src &s, Ctx &ctx) {
  FactCase c = gen_fact(s, ctx, s.chance(1, 6) ? 30 : 16, s.chance(1, 4));
  return c;
}

PBT_PROP(flags, 2500, 60000) {
  FactCase c = gen24(src, ctx);
  int      f = (int)src.below(128);
  ctx.desc << " flags=" << f;
  H24     h0;
  Outcome none = run24(h0, c, 0);
  CHECK(none.out.empty() && none.err.empty(), "VERBOSE_NONE printed " << (none.out.empty() ? none.err[0] : none.out[0]));
  H24     h1;
  Outcome a = run24(h1, c, f);
  CHECK(a.fail == none.fail, "verbose=" << f << " changes the outcome: \"" << a.fail << "\" / \"" << none.fail << "\"");
  CHECK(a.state == none.state, "verbose=" << f << " changes the factorization");
  if (none.fail.size()) throw pbt::Discard();
  // each flag selects its own messages, independently of the other flags, in an order of its own
  Msgs           want, wante;
  std::set<char> seen;
  int            kinds = 0;
  std::vector<Msgs> single;
  for (int b = 0; b < 7; ++b)
    if (f >> b & 1) {
      H24     h;
      Outcome o = run24(h, c, 1 << b);
      Msgs    ck = cooked(o.out), ce = cooked(o.err);
      single.push_back(ck);
      kinds += !ck.empty() || !ce.empty();
      want.insert(want.end(), ck.begin(), ck.end());
      wante.insert(wante.end(), ce.begin(), ce.end());
      if (b == 0) CHECK(ck.empty(), "VERBOSE_WARN printed to the standard output: " << ck[0]);
      else CHECK(ce.empty(), "verbose=" << (1 << b) << " printed a warning: " << ce[0]);
      if (!ck.empty()) ctx.label("flag=" + std::to_string(1 << b));
      if (!ce.empty()) ctx.label("warnings");
    }
  Msgs got = cooked(a.out), gote = cooked(a.err);
  // subsequence test per flag
  for (auto &sg : single) {
    size_t j = 0;
    for (auto &m : got) if (j < sg.size() && m == sg[j]) ++j;
    CHECK(j == sg.size(), "with verbose=" << f << " the message \"" << sg[j] << "\" of a flag is missing or out of order");
  }
  std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
  CHECK(got == want, "messages of verbose=" << f << " / of its flags one by one: " << diff(got, want));
  CHECK(gote == wante, "warnings of verbose=" << f << ": " << diff(gote, wante));
  if (kinds >= 2 && got.size() >= 10) ctx.nontrivial();
}

// "...<key><number>..." after position `from`
inline long field(const std::string &m, const char *key, size_t nth = 0) {
  size_t p = 0;
  for (size_t i = 0; i <= nth; ++i) {
    p = m.find(key, i ? p : 0);
    CHECK(p != std::string::npos, "no \"" << key << "\" in \"" << m << "\"");
    p += strlen(key);
  }
  char *e;
  long  v = strtol(m.c_str() + p, &e, 10);
  CHECK(e != m.c_str() + p, "no number after \"" << key << "\" in \"" << m << "\"");
  return v;
}
inline long field2(const std::string &m, const char *key, char sep) {  // second number of key a<sep>b
  size_t p = m.find(key);
  CHECK(p != std::string::npos, "no \"" << key << "\" in \"" << m << "\"");
  p = m.find(sep, p + strlen(key));
  CHECK(p != std::string::npos, "no second number after \"" << key << "\" in \"" << m << "\"");
  char *e;
  long  v = strtol(m.c_str() + p + 1, &e, 10);
  CHECK(e != m.c_str() + p + 1, "no second number after \"" << key << "\" in \"" << m << "\"");
  return v;
}
struct Pass {
  long level = 0, n = 0;
  int  kern  = 0;  // 0 general, 1 symmetric, 2 pivoting
  Msgs m;
  bool dropped = false, finished = false;
};

PBT_PROP(content, 6000, 150000) {
  FactCase c = gen24(src, ctx);
  H24      h;
  if (src.chance(1, 4)) {  // something to wipe
    FactCase d = c;
    d.p.verbose = 0;
    try { do_factorize(h, d); } catch (const std::exception &) { throw pbt::Discard(); }
  }
  bool    had = !h.empty();
  Outcome o   = run24(h, c, 2 | 8 | 64 | (src.chance(1, 2) ? 1 : 0));
  if (o.fail.size()) throw pbt::Discard();
  const Msgs &m = o.out;
  auto count = [&](const char *p) { return std::count_if(m.begin(), m.end(), [&](const std::string &s) { return s.find(p) != std::string::npos; }); };
  CHECK(count("wipe previous results first") == (had ? 1 : 0), "announced " << count("wipe previous results first") << " wipes of a " << (had ? "used" : "new") << " object");
  CHECK(count("input nnz(A)=") == 1, "no summary");
  std::vector<Pass> ps;
  bool              in = false;
  for (auto &s : m) {
    if (starts(s, "\nenter ")) {
      CHECK(!in, "a level is entered before the previous one was left");
      in = true;
      Pass p;
      p.level = field(s, "level ");
      p.kern  = starts(s, "\nenter symmetric") ? 1 : s.find("with pivoting") != std::string::npos ? 2 : 0;
      ps.push_back(p);
    }
    if (starts(s, "\nfinish level ")) {
      CHECK(in, "a level is left that was not entered");
      in = false;
      CHECK(field(s, "level ") == ps.back().level, "level " << ps.back().level << " is left as " << s);
      ps.back().finished = true;
    }
    if (starts(s, "directly return the input")) in = false, ps.back().dropped = true;
    if (!ps.empty() && (in || ps.back().dropped)) ps.back().m.push_back(s);
    if (starts(s, "\ninput nnz(A)=")) {
      CHECK(field(s, "nnz(A)=") == (long)c.g.nnz(), s << " for a matrix with " << c.g.nnz() << " entries");
      CHECK(field(s, "nnz(precs)=") == (long)h.nnz(), s << " for a preconditioner with nnz()=" << h.nnz());
      double ratio = atof(s.c_str() + s.find("ratio=") + 6), rr = (double)h.nnz() / c.g.nnz();
      CHECK(!c.g.nnz() || std::abs(ratio - rr) <= 1e-4 * std::abs(rr), s << " expected ratio " << rr);
    }
  }
  CHECK(!in, "the last level is not left");
  size_t k = 0;
  auto   it = h.precs().begin();
  long   st[6] = {0}, steps_total = 0;
  long   nlev  = 0;
  for (size_t i = 0; i < ps.size(); ++i) {
    Pass &p = ps[i];
    CHECK(p.level == (long)k + 1, "level " << p.level << " is entered after " << k << " finished levels");
    if (p.dropped) {
      CHECK(p.kern != 2, "the pivoting kernel gave up");
      CHECK(i + 1 < ps.size() && ps[i + 1].kern == 2 && ps[i + 1].level == p.level, "no pivoting after giving up on level " << p.level);
      CHECK(c.p.pivot == hif::PIVOTING_AUTO, "gave up although pivot=" << c.p.pivot);
      ctx.label("switched to pivoting");
    }
    if (c.p.pivot == hif::PIVOTING_OFF) CHECK(p.kern != 2, "pivoting is off, but was used");
    if (p.finished) CHECK(it != h.precs().end(), "more levels printed than stored");
    // one pass
    long step = 0, m_now = -1, m_pre = -1, tot = 0, drops = 0;
    bool info2 = false;
    bool open = false;
    for (auto &s : p.m) {
      if (starts(s, "preprocessing done with")) {
        m_pre = m_now = field(s, "size ");
        if (p.finished) CHECK(m_pre <= (long)it->n, s << " for a level of size " << it->n);
      } else if (starts(s, " Crout step ") && s.find("done!") == std::string::npos) {
        CHECK(!open, "a step starts before the previous one is done: " << s);
        open = true;
        CHECK(field(s, "step ") == step, "\"" << s << "\" is step " << step << " of level " << p.level);
        CHECK(field(s, "size ") == m_now, "\"" << s << "\": the leading block has size " << m_now);
      } else if (starts(s, "  previous/current leading")) {
        long a = field(s, "sizes "), b = field2(s, "sizes ", '/'), x = field(s, "defers="), y = field2(s, "defers=", '/');
        CHECK(a == m_now && a - b == x && x >= 0, "\"" << s << "\" with leading block size " << m_now);
        tot += x;
        CHECK(y == tot, "\"" << s << "\" after " << tot << " deferrals");
        m_now = b;
      } else if (s.find("sizes before/after dropping") != std::string::npos || s.find("sizes (asymm parts) before/after") != std::string::npos) {
        long a = field(s, "dropping "), b = field2(s, "dropping ", '/'), d = field(s, "drops=");
        CHECK(a - b == d && d >= 0, "\"" << s << "\" does not add up");
        drops += d;
      } else if (starts(s, " Crout step ")) {
        CHECK(open && field(s, "step ") == step, "\"" << s << "\" after step " << step);
        open = false;
        ++step;
        ++steps_total;
      } else if (starts(s, "finish Crout update")) {
        CHECK(p.finished && !info2, "a summary of a level which was given up or summarised twice");
        info2    = true;
        long mi = field(s, "size in="), mo = field(s, "size out="), td = field(s, "total deferrals="), df = field(s, "diff="), dd = field(s, "diag deferrals="), dk = field(s, "inv-norm deferrals=");
        long du = p.kern == 1 ? 0 : field(s, "\tdrop ut="), su = p.kern == 1 ? 0 : field(s, "space drop ut="), dl = field(s, "\tdrop l="), sl = field(s, "space drop l=");
        CHECK(mo == (long)it->m, "level " << p.level << " prints size out=" << mo << " but has " << it->m);
        CHECK(mi - mo == df && mi <= (long)it->n && m_pre <= mi, "in=" << mi << " out=" << mo << " diff=" << df << " preprocessed=" << m_pre);
        st[0] += df, st[1] += mo ? td : 0, st[2] += dd, st[3] += dk, st[4] += du + dl, st[5] += su + sl;
        if (mo) {
          CHECK(step == mo, step << " steps printed for a leading block of size " << mo);
          CHECK(td == dd + dk && td >= tot, "deferrals " << td << " = " << dd << " + " << dk << ", " << tot << " seen");
          CHECK(m_pre - mo == td, "leading block " << m_pre << " -> " << mo << " with " << td << " deferrals");
          if (!(p.kern == 0 && c.m0)) CHECK(drops == du + dl, "droppings " << du << " + " << dl << ", printed step by step " << drops);
          // the printed extrema
          double dmax = 0, got = atof(s.c_str() + s.find("max |d|=") + 8);
          for (size_t j = 0; j < it->m; ++j) dmax = std::max(dmax, (double)std::abs(it->d_B[j]));
          CHECK(std::abs(dmax - got) <= 1e-4 * dmax, "max |d|=" << got << " but the diagonal has " << dmax);
          double kap = std::max(2.0, c.p.kappa) * 1.0001;
          for (const char *key : {"max |kappa_u|=", "max |kappa_l|=", "max |kappa|="}) {
            size_t q = s.find(key);
            if (q == std::string::npos) continue;
            double v = atof(s.c_str() + q + strlen(key));
            CHECK(v <= kap && v >= 0, key << v << " although kappa=" << c.p.kappa);
          }
        }
      } else if (starts(s, "nnz(S_C)=")) {
        CHECK(field2(s, "nnz(L/L_B)=", '/') == (long)it->L_B.nnz(), s << " but L_B has " << it->L_B.nnz());
        if (p.kern != 1) CHECK(field2(s, "nnz(U/U_B)=", '/') == (long)it->U_B.nnz(), s << " but U_B has " << it->U_B.nnz());
        if (it->m) CHECK(field(s, "nnz(L/L_B)=") >= (long)it->L_B.nnz(), s);
      } else if (starts(s, "successfully factorized the dense")) {
        CHECK(field(s, "=(") == (long)h.schur_size() && field2(s, "=(", ',') == (long)h.schur_rank(), s << " for (" << h.schur_size() << "," << h.schur_rank() << ")");
        st[0] += 0, ++nlev;
      } else if (starts(s, "is the final Schur complement full")) {
        bool yes = s.find("yes") != std::string::npos;
        CHECK(yes == (h.schur_size() == h.schur_rank()), s << " for (" << h.schur_size() << "," << h.schur_rank() << ")");
      }
    }
    if (p.finished) {
      CHECK(info2, "no summary of level " << p.level);
      ++k, ++it;
    }
  }
  CHECK(k == h.precs().size(), k << " levels printed, " << h.precs().size() << " stored");
  CHECK((nlev == 1) == (h.schur_size() != 0), nlev << " dense components printed, size " << h.schur_size());
  for (int i = 0; i < 6; ++i) CHECK(st[i] == (long)h.stats(i), "stats(" << i << ")=" << h.stats(i) << " but the levels print " << st[i]);
  if (k > 1) ctx.label("levels>1");
  if (st[1]) ctx.label("deferrals");
  if (st[4]) ctx.label("droppings");
  if (steps_total >= 3 && (st[1] || st[4] || k > 1)) ctx.nontrivial();
}

// the printf-like front ends
PBT_PROP(format, 2500, 40000) {
  size_t      len = src.pick({(size_t)0, (size_t)3, (size_t)40, (size_t)500, (size_t)5000, (size_t)70000});
  len             = len ? 1 + src.below(len) : 0;
  std::string txt;
  for (size_t i = 0; i < len; ++i) txt += i < 64 ? (char)(32 + src.below(95)) : txt[i % 61];
  long        a  = (long)src.below(2000001) - 1000000;
  double      x  = src.pick({0.0, 1.5, -3e300, 1e-300, 0.1, 123456.789}) * (1 + (double)src.below(7));
  int         w  = 1 + (int)src.below(12), kind = (int)src.below(4);
  bool        cond = src.chance(1, 2);
  std::string fmt = src.pick({(const char *)"%s|%ld|%g", "a %s b %ld c %g d", "%%%s%%%ld%%%g", "%s\n%ld\t%.17g"});
  if (src.chance(1, 3)) {  // a long literal part
    std::string lit;
    for (char ch : txt) { lit += ch; if (ch == '%') lit += '%'; }
    fmt = lit + fmt;
  }
  ctx.desc << "kind=" << kind << " cond=" << cond << " len=" << len << " a=" << a << " x=" << x << " fmt=" << fmt.substr(0, 60);
  std::vector<char> buf(8 + 2 * txt.size() + 500 + txt.size());
  int               r = snprintf(buf.data(), buf.size(), fmt.c_str(), txt.c_str(), a, x);
  CHECK(r >= 0 && (size_t)r < buf.size(), "reference buffer");
  std::string want(buf.data());
  (void)w;
  Grab        g;
  std::string what;
  bool        thrown = false;
  int         line   = 0;
  switch (kind) {
    case 0:
      hif_info(fmt.c_str(), txt.c_str(), a, x);
      CHECK(g.err.empty() && g.out == want + '\x01', "hif_info printed \"" << g.out.substr(0, 200) << "\" instead of \"" << want.substr(0, 200) << "\"");
      break;
    case 1: {
      if (cond) { line = __LINE__; hif_warning(fmt.c_str(), txt.c_str(), a, x); }
      else { line = __LINE__; hif_warning_if(a > 0, fmt.c_str(), txt.c_str(), a, x); }
      bool shown = cond || a > 0;
      CHECK(g.out.empty() && g.err.empty() == !shown, "warning " << (shown ? "not " : "") << "shown, a=" << a << " out=" << g.out.substr(0, 100));
      if (shown) {
        CHECK(g.err.size() > want.size() && g.err.substr(g.err.size() - 1 - want.size()) == want + '\x01', "hif_warning printed \"" << g.err.substr(0, 300) << "\" for \"" << want.substr(0, 200) << "\"");
        CHECK(g.err.find("p24.cpp:" + std::to_string(line)) != std::string::npos && g.err.find("WARNING!") != std::string::npos, "warning without its position: " << g.err.substr(0, 200));
      }
      break;
    }
    default:
      try {
        if (kind == 2) { line = __LINE__; hif_error(fmt.c_str(), txt.c_str(), a, x); }
        else { line = __LINE__; hif_error_if(a > 0, fmt.c_str(), txt.c_str(), a, x); }
      } catch (const std::runtime_error &e) {
        thrown = true, what = e.what();
      }
      CHECK(thrown == (kind == 2 || a > 0), "error " << (thrown ? "" : "not ") << "raised, a=" << a);
      CHECK(g.out.empty() && g.err.empty(), "an exception was raised and something printed: " << g.out.substr(0, 100) << g.err.substr(0, 100));
      if (thrown) {
        CHECK(what.find("message: " + want + "\n") != std::string::npos, "hif_error says \"" << what.substr(0, 300) << "\" for \"" << want.substr(0, 200) << "\"");
        CHECK(what.find("p24.cpp:" + std::to_string(line)) != std::string::npos, "error without its position: " << what.substr(0, 200));
        CHECK((kind == 3) == (what.find("invalid condition a > 0") != std::string::npos), "condition: " << what.substr(0, 200));
      }
  }
  ctx.label("kind=" + std::to_string(kind));
  if (len > 300) ctx.label("long");
  if (len) ctx.nontrivial();
}
}  // namespace
