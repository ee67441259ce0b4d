// P20: options: reading from text, setting by name, printing, verbose levels and the defaults of both interfaces,
// against an independent table of the documented options.
#include "pbt.hpp"
#include <iomanip>
#include <limits>
#include <sstream>
#include <hifir.hpp>
#include <libhifir.h>

using pbt::Src;
using pbt::Ctx;

namespace {
struct Field {
  const char *name;
  bool        real;
  double      def;
  double hif::Options::*d;
  int hif::Options::*   i;
  Field(const char *n, double v, double hif::Options::*p) : name(n), real(true), def(v), d(p), i(nullptr) {}
  Field(const char *n, int v, int hif::Options::*p) : name(n), real(false), def(v), d(nullptr), i(p) {}
  double get(const hif::Options &o) const { return real ? o.*d : (double)(o.*i); }
  void   set(hif::Options &o, double v) const { if (real) o.*d = v; else o.*i = (int)v; }
};
typedef hif::Options O;
// all options in their documented order with their documented defaults
const std::vector<Field> &fields() {
  static const std::vector<Field> f = {
      {"tau_L", 0.0001, &O::tau_L}, {"tau_U", 0.0001, &O::tau_U}, {"kappa_d", 3., &O::kappa_d}, {"kappa", 3., &O::kappa},
      {"alpha_L", 10., &O::alpha_L}, {"alpha_U", 10., &O::alpha_U}, {"rho", 0.5, &O::rho}, {"c_d", 10., &O::c_d},
      {"c_h", 2., &O::c_h}, {"N", -1, &O::N}, {"verbose", 1, &O::verbose}, {"rf_par", 1, &O::rf_par},
      {"reorder", 2, &O::reorder}, {"spd", 0, &O::spd}, {"check", 1, &O::check}, {"pre_scale", 0, &O::pre_scale},
      {"symm_pre_lvls", -2, &O::symm_pre_lvls}, {"threads", 0, &O::threads}, {"mumps_blr", 1, &O::mumps_blr},
      {"fat_schur_1st", 0, &O::fat_schur_1st}, {"rrqr_cond", 0., &O::rrqr_cond}, {"pivot", 2, &O::pivot},
      {"gamma", 1., &O::gamma}, {"beta", 1e3, &O::beta}, {"is_symm", 0, &O::is_symm}, {"no_pre", 0, &O::no_pre},
      {"nzp_thres", 0.65, &O::nzp_thres}, {"dense_thres", 2000, &O::dense_thres}};
  return f;
}
double rnd(Src &s, const Field &f) {
  if (!f.real) {
    switch (s.below(4)) {
      case 0: return f.def;
      case 1: return (double)s.range(-5, 200);
      case 2: return (double)s.range(-2000000000, 2000000000);
      default: return s.chance(1, 2) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
    }
  }
  switch (s.below(5)) {
    case 0: return f.def;
    case 1: return 0.;
    case 2: return s.unit() * 10;
    case 3: return (s.chance(1, 2) ? -1 : 1) * (1 + s.unit()) * std::pow(10., (double)s.range(-300, 300));
    default: return (double)s.range(-1000, 1000);
  }
}
O random_opts(Src &s, size_t *nch = nullptr) {
  O o = hif::get_default_options();
  for (auto &f : fields()) {
    if (s.chance(1, 3)) continue;
    double v = rnd(s, f);
    f.set(o, v);
    if (nch && v != f.def) ++*nch;
  }
  return o;
}
std::string show(const O &o) {
  std::ostringstream t;
  t << std::setprecision(17);
  for (auto &f : fields()) t << f.name << '=' << f.get(o) << ' ';
  return t.str();
}
void same(const O &a, const O &b, const std::string &what, const char *except = "") {
  for (auto &f : fields())
    if (std::string(f.name) != except) CHECK(f.get(a) == f.get(b), what << ": option " << f.name << " is " << f.get(a) << " instead of " << f.get(b));
}
}  // namespace

// ---- text
PBT_PROP(text, 40000, 400000) {
  size_t nch = 0;
  O      a   = random_opts(src, &nch);
  std::vector<std::string> tok;
  for (auto &f : fields()) {
    std::ostringstream t;
    if (f.real) {
      if (src.chance(1, 3)) t << std::scientific;
      t << std::setprecision(17) << a.*(f.d);
    } else t << a.*(f.i);
    tok.push_back(t.str());
  }
  std::string text;
  auto sep = [&]() { std::string r; for (size_t k = 1 + src.below(3); k--;) r += src.pick({' ', '\n', '\t'}); return r; };
  int  mode = src.below(4);
  size_t bad = src.below(tok.size());
  std::string orig = tok[bad];
  if (mode == 2) tok.resize(bad);                                       // truncated
  if (mode == 3) tok[bad] = src.pick<const char *>({"x", "", "--3", "yes", "#", "abc1"});  // malformed
  bool blank = mode == 3 && tok[bad].empty();
  if (blank) tok[bad] = "!";
  if (src.chance(1, 4)) text += sep();
  for (size_t k = 0; k < tok.size(); ++k) text += (k ? sep() : std::string()) + tok[k];
  bool more = mode == 1;
  if (more) text += sep() + "4711 tail";
  ctx.desc << "mode " << mode << " position " << bad << "\n" << text;
  std::istringstream in(text);
  O                  b = random_opts(src), b0 = b;
  std::istream &     r = in >> b;
  CHECK(&r == &in, "the stream is not returned");
  if (mode <= 1) {
    CHECK(!in.fail(), "reading a complete option set failed");
    same(b, a, "read");
    if (more) {
      int         v = 0;
      std::string t;
      in >> v >> t;
      CHECK(v == 4711 && t == "tail", "reading options did not stop after the last one");
    }
    if (nch >= 3) ctx.nontrivial();
  } else {
    CHECK(in.fail(), (mode == 2 ? "a truncated" : "a malformed") << " option set was accepted");
    for (size_t k = 0; k < bad; ++k) CHECK(fields()[k].get(b) == fields()[k].get(a), "option " << fields()[k].name << " before the bad one was not read");
    for (size_t k = bad + 1; k < fields().size(); ++k) CHECK(fields()[k].get(b) == fields()[k].get(b0), "option " << fields()[k].name << " after the bad one was changed");
    ctx.nontrivial();
  }
}

// ---- setting by name
PBT_PROP(byname, 40000, 400000) {
  O      o   = random_opts(src);
  size_t n   = 1 + src.below(12);
  size_t set = 0, unknown = 0;
  ctx.desc << show(o);
  for (size_t k = 0; k < n; ++k) {
    O before = o;
    if (src.chance(1, 4)) {
      std::string nm = src.pick<const char *>({"", "tau", "tau_l", "TAU_L", "tau_L ", " N", "n", "rookpivot", "droptol", "kappa_D", "alpha", "verbose_", "dense_thres2", "symm", "is_sym"});
      if (src.chance(1, 3)) { nm = src.pickv(fields()).name; size_t p = src.below(nm.size()); nm[p] = (char)(nm[p] ^ (1 << src.below(5))); }
      bool known = false;
      for (auto &f : fields()) known = known || nm == f.name;
      if (known) continue;
      ctx.desc << " [" << nm << "]";
      bool fail = src.chance(1, 2) ? hif::set_option_attr(nm, 3, o) : hif::set_param_attr(nm, 2.5, o);
      CHECK(fail, "setting the unknown option '" << nm << "' was not reported");
      same(o, before, "after setting the unknown option " + nm);
      ++unknown;
      continue;
    }
    const Field &f = src.pickv(fields());
    double       v = rnd(src, f);
    bool         fail;
    ctx.desc << " " << f.name << "=" << v;
    if (f.real) fail = src.chance(1, 2) ? hif::set_option_attr(f.name, v, o) : hif::set_param_attr(f.name, v, o);
    else if (src.chance(1, 3)) fail = hif::set_option_attr(f.name, v, o);  // an integer as a double
    else fail = src.chance(1, 2) ? hif::set_option_attr(f.name, (int)v, o) : hif::set_param_attr(f.name, (int)v, o);
    CHECK(!fail, "setting option " << f.name << " was reported as failed");
    CHECK(f.get(o) == v, "option " << f.name << " is " << f.get(o) << " after setting it to " << v);
    same(o, before, std::string("after setting ") + f.name, f.name);
    ++set;
  }
  if (set >= 2 && unknown) ctx.nontrivial();
}

// ---- printing and verbose levels
PBT_PROP(print, 20000, 200000) {
  O o = random_opts(src);
  if (src.chance(1, 2)) for (auto &f : fields()) if (f.real && std::abs(f.get(o)) > 1e6) f.set(o, 1.5);
  o.verbose = src.chance(1, 8) ? 0 : (int)src.below(128);
  o.reorder = src.below(6);
  o.pivot   = src.below(3);
  ctx.desc << show(o);
  static const char *lv[] = {"warning", "info", "pre", "fac", "pre_time", "mem", "info2"};
  std::string        vb;
  for (int k = 0; k < 7; ++k) if (o.verbose >> k & 1) vb += (vb.empty() ? "" : ",") + std::string(lv[k]);
  if (vb.empty()) vb = "none";
  CHECK(hif::get_verbose(o) == vb, "verbose level " << o.verbose << " is described as '" << hif::get_verbose(o) << "' instead of '" << vb << "'");
  const char *ro = o.reorder == 0 ? "Off" : o.reorder == 1 ? "Auto" : o.reorder == 2 ? "AMD" : o.reorder == 3 ? "RCM" : "Null";
  CHECK(hif::get_reorder_name(o) == ro && hif_get_reorder_name(&o) == std::string(ro), "reordering " << o.reorder << " is named " << hif::get_reorder_name(o));
  std::map<std::string, std::string> got;
  std::istringstream                 in(hif::opt_repr(o));
  std::string                        line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string        a, b, c;
    l >> a >> b;
    CHECK(!(l >> c), "line '" << line << "' has more than two words");
    CHECK(!got.count(a), "option " << a << " is printed twice");
    got[a] = b;
  }
  for (auto &f : fields()) {
    std::string nm = f.name;
    if (nm == "mumps_blr") continue;  // deprecated
    CHECK(got.count(nm), "option " << nm << " is not printed");
    std::string v = got[nm], e;
    got.erase(nm);
    if (nm == "verbose") e = vb;
    else if (nm == "reorder") e = ro;
    else if (nm == "check") e = o.check ? "yes" : "no";
    else if (nm == "pivot") e = o.pivot == 0 ? "off" : o.pivot == 1 ? "on" : "auto";
    else if (!f.real) e = std::to_string(o.*(f.i));
    if (!e.empty()) CHECK(v == e, "option " << nm << " is printed as " << v << " instead of " << e);
    else {
      double w = std::strtod(v.c_str(), nullptr);
      CHECK(std::abs(w - f.get(o)) <= 1e-6 + 1e-14 * std::abs(w), "option " << nm << " is printed as " << v << " instead of " << f.get(o));
    }
  }
  got.erase("mumps_blr");
  CHECK(got.empty(), "unknown option " << got.begin()->first << " is printed");
  // switching levels on and off
  O b = o;
  int flag = src.chance(1, 4) ? (int)src.range(-3, 0) : 1 << src.below(7);
  if (src.chance(1, 2)) hif::enable_verbose(flag, b);
  else hif_enable_verbose(flag, &b);
  CHECK(b.verbose == (flag > 0 ? (o.verbose | flag) : 0), "verbose level " << o.verbose << " became " << b.verbose << " with flag " << flag);
  same(b, o, "after changing the verbose level", "verbose");
  static const int hv[] = {hif::VERBOSE_WARN, hif::VERBOSE_INFO, hif::VERBOSE_PRE, hif::VERBOSE_FAC, hif::VERBOSE_PRE_TIME, hif::VERBOSE_MEM, hif::VERBOSE_INFO2};
  static const int cv[] = {-1, LHF_VERBOSE_INFO, LHF_VERBOSE_PRE, LHF_VERBOSE_FAC, LHF_VERBOSE_PRE_TIME, LHF_VERBOSE_MEM, -1};
  for (int k = 0; k < 7; ++k) {
    CHECK(hv[k] == 1 << k, "level " << lv[k] << " is " << hv[k]);
    CHECK(cv[k] < 0 || cv[k] == hv[k], "level " << lv[k] << " is " << cv[k] << " in the C interface but " << hv[k] << " in the library");
  }
  if (o.verbose) ctx.nontrivial();
}

// ---- defaults and the C interface
PBT_PROP(defaults, 5000, 50000) {
  O c = hif_get_default_options(), d = hif_get_default_params();
  for (auto &f : fields()) {
    CHECK(f.get(hif::get_default_options()) == f.def, "default of " << f.name << " is " << f.get(hif::get_default_options()) << " instead of " << f.def);
    CHECK(f.get(hif::DEFAULT_PARAMS) == f.def && f.get(hif::get_default_params()) == f.def && f.get(c) == f.def && f.get(d) == f.def, "defaults of " << f.name << " differ");
  }
  // the parameter array of the C interface
  struct CP { int pos; const char *name; };
  static const CP cp[] = {{LHF_DROPTOL_L, "tau_L"}, {LHF_DROPTOL_U, "tau_U"}, {LHF_COND_D, "kappa_d"}, {LHF_COND, "kappa"},
                          {LHF_ALPHA_L, "alpha_L"}, {LHF_ALPHA_U, "alpha_U"}, {LHF_VERBOSE, "verbose"}, {LHF_REORDER, "reorder"},
                          {LHF_SYMMPRELVLS, "symm_pre_lvls"}, {LHF_THREADS, "threads"}, {LHF_RRQR_COND, "rrqr_cond"}, {LHF_PIVOT, "pivot"},
                          {LHF_BETA, "beta"}, {LHF_ISSYMM, "is_symm"}, {LHF_NOPRE, "no_pre"}, {LHF_NZP_THRES, "nzp_thres"}, {LHF_DENSE_THRES, "dense_thres"}};
  const size_t np = sizeof cp / sizeof cp[0];
  CHECK((size_t)LHF_NUMBER_PARAMS == np, "the parameter array has " << (int)LHF_NUMBER_PARAMS << " entries instead of " << np);
  std::vector<double> p(np + 2), m(np);
  for (auto &v : p) v = src.unit() * 100 - 50;
  p[np] = p[np + 1] = 12345;
  ctx.desc << "C history";
  auto look = [&](const char *what) {
    for (size_t k = 0; k < np; ++k) CHECK(p[k] == m[k], what << ": parameter " << cp[k].name << " is " << p[k] << " instead of " << m[k]);
    CHECK(p[np] == 12345 && p[np + 1] == 12345, what << " wrote past the parameter array");
  };
  m.assign(p.begin(), p.begin() + np);
  size_t n = 1 + src.below(8);
  for (size_t k = 0; k < n; ++k) {
    double v = src.unit() * 20;
    switch (src.below(5)) {
      case 0:
        CHECK(lhfSetDefaultParams(p.data()) == LHF_SUCCESS, "status");
        for (auto &q : cp) for (auto &f : fields()) if (std::string(f.name) == q.name) m[q.pos] = f.def;
        look("defaults");
        break;
      case 1: CHECK(lhfSetDroptol(v, p.data()) == LHF_SUCCESS, "status"); m[LHF_DROPTOL_L] = m[LHF_DROPTOL_U] = v; look("droptol"); break;
      case 2: CHECK(lhfSetAlpha(v, p.data()) == LHF_SUCCESS, "status"); m[LHF_ALPHA_L] = m[LHF_ALPHA_U] = v; look("alpha"); break;
      case 3: CHECK(lhfSetKappa(v, p.data()) == LHF_SUCCESS, "status"); m[LHF_COND] = m[LHF_COND_D] = v; look("kappa"); break;
      default: { size_t q = src.below(np); p[q] = m[q] = v; }
    }
  }
  int ver[4] = {-1, -1, -1, -1};
  lhfGetVersions(ver);
  CHECK(ver[0] == HIF_GLOBAL_VERSION && ver[1] == HIF_MAJOR_VERSION && ver[2] == HIF_MINOR_VERSION && ver[3] == -1, "versions");
  CHECK(hif::version() == std::to_string(ver[0]) + "." + std::to_string(ver[1]) + "." + std::to_string(ver[2]), "version string " << hif::version());
  CHECK((int)LHF_REORDER_OFF == hif::REORDER_OFF && (int)LHF_REORDER_AUTO == hif::REORDER_AUTO && (int)LHF_REORDER_AMD == hif::REORDER_AMD && (int)LHF_REORDER_RCM == hif::REORDER_RCM, "reordering flags");
  CHECK((int)LHF_PIVOTING_OFF == hif::PIVOTING_OFF && (int)LHF_PIVOTING_ON == hif::PIVOTING_ON && (int)LHF_PIVOTING_AUTO == hif::PIVOTING_AUTO, "pivoting flags");
  if (n >= 3) ctx.nontrivial();
}
