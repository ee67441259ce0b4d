// Driver: runs registered properties over generated cases in forked workers.
//   bin --list
//   bin --run --seed S --tier quick|thorough --workers W --wall SEC --out DIR [--only NAME] [--scale F]
//   bin --replay FILE           exit 0 pass, 1 fail (prints message), 3 discard
// With -DPBT_FUZZ it is a libFuzzer target instead (PBT_ONLY selects the property).
#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt {
std::vector<Prop> &registry() {
  static std::vector<Prop> r;
  return r;
}
}  // namespace pbt
using namespace pbt;

static uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

enum { R_PASS = 0, R_FAIL = 1, R_DISCARD = 3 };

static int run_case(const Prop &p, Src &s, Ctx &c, std::string &msg) {
  try {
    p.fn(s, c);
  } catch (const Discard &) {
    return R_DISCARD;
  } catch (const Failure &f) {
    msg = f.msg;
    return R_FAIL;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    return R_FAIL;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return R_FAIL;
  }
  return R_PASS;
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static const Prop *P = nullptr;
  if (!P) {
    const char *o = getenv("PBT_ONLY");
    for (auto &p : registry())
      if (o && p.name == o) P = &p;
    if (!P) abort();
  }
  std::vector<uint64_t> ch;
  for (size_t i = 0; i < n;) {
    // variable length: a byte below 0xf0 is itself, otherwise 1..4 more bytes follow
    uint64_t v = d[i++];
    if (v >= 0xf0) {
      int k = 1 + (v & 3);
      v     = 0;
      while (k-- && i < n) v = v << 8 | d[i++];
    }
    ch.push_back(v);
  }
  Src         s(ch);
  Ctx         c;
  std::string msg;
  const char *dump = getenv("PBT_DUMP");
  if (dump) {  // write the choice file of this input
    FILE *f = fopen(dump, "w");
    fprintf(f, "prop %s\n", P->name.c_str());
    for (auto v : ch) fprintf(f, "%llu\n", (unsigned long long)v);
    fclose(f);
    return 0;
  }
  if (run_case(*P, s, c, msg) == R_FAIL) {
    fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
    abort();
  }
  return 0;
}
#else

struct Shm {
  volatile long prop, idx;
  uint64_t      nchoices;
  int           result;  // of single-case children
  char          msg[4096];
  char          desc[16384];
  uint64_t      choices[1 << 20];
};
struct Glob {
  volatile int failed[512];
};

static Shm *new_shm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm *)p;
}

static double g_cpu = 30, g_wallcase = 200;
static void arm() {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)g_cpu;
  setitimer(ITIMER_PROF, &it, nullptr);
  alarm((unsigned)g_wallcase);
}

// run one choice sequence in a child; returns R_* ; crash => R_FAIL with message
static int single(const Prop &p, const std::vector<uint64_t> *ch, uint64_t seed, Shm *sh, int errfd) {
  sh->nchoices = 0;
  sh->result   = -1;
  sh->msg[0] = sh->desc[0] = 0;
  fflush(stdout);
  if (errfd >= 0 && ftruncate(errfd, 0)) {}
  if (errfd >= 0) lseek(errfd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0) {
    if (errfd >= 0) { dup2(errfd, 2); dup2(errfd, 1); }
    arm();
    Src s = ch ? Src(*ch) : Src(seed);
    s.mirror = sh->choices; s.mirror_n = &sh->nchoices; s.mirror_cap = 1 << 20;
    Ctx         c;
    std::string msg;
    int         r = run_case(p, s, c, msg);
    if (!c.known.empty()) msg = "[" + c.known + "] " + msg;
    strncpy(sh->msg, msg.c_str(), sizeof(sh->msg) - 1);
    strncpy(sh->desc, c.desc.str().c_str(), sizeof(sh->desc) - 1);
    sh->result = r;
    fflush(stdout); fflush(stderr);
    _exit(r);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && sh->result >= 0 && WEXITSTATUS(st) == sh->result) return sh->result;
  char b[200];
  if (WIFSIGNALED(st)) {
    int g = WTERMSIG(st);
    if (g == SIGKILL || g == SIGALRM) return R_DISCARD;  // memory guard, overloaded machine: no verdict
    snprintf(b, sizeof b, "process killed by signal %d (%s)", g,
             g == SIGPROF ? "time-out: case did not finish" : strsignal(g));
  } else
    snprintf(b, sizeof b, "process exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
  std::string m = b;
  if (errfd >= 0) {  // pick the sanitizer summary
    char  buf[65536];
    off_t off = 0;
    ssize_t n = pread(errfd, buf, sizeof buf - 1, off);
    if (n > 0) {
      buf[n] = 0;
      std::istringstream is(buf);
      std::string        l;
      int k = 0;
      while (std::getline(is, l))
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("error") != std::string::npos ||
            (l.find("    #") != std::string::npos && l.find("hif") != std::string::npos && k < 6))
          m += " | " + l, ++k;
    }
  }
  strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
  return R_FAIL;
}

static void write_replay(const std::string &f, const Prop &p, const std::vector<uint64_t> &ch) {
  FILE *o = fopen(f.c_str(), "w");
  fprintf(o, "prop %s\n", p.name.c_str());
  for (auto v : ch) fprintf(o, "%llu\n", (unsigned long long)v);
  fclose(o);
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, Shm *sh, int errfd,
                                    double wall, int &attempts) {
  double t0  = now();
  auto   tryit = [&](std::vector<uint64_t> c) {
    if (now() - t0 > wall || attempts > 3000) return false;
    ++attempts;
    if (single(p, &c, 0, sh, errfd) != R_FAIL) return false;
    // the sequence really consumed
    std::vector<uint64_t> used(sh->choices, sh->choices + std::min<uint64_t>(sh->nchoices, 1 << 20));
    if (used.size() < c.size() || used <= c) best = used;
    else best = c;
    return true;
  };
  bool improved = true;
  int  rounds   = 0;
  while (improved && now() - t0 < wall && rounds++ < 6) {
    improved = false;
    // zero / delete blocks
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i < best.size() && now() - t0 < wall;) {
        size_t                e = std::min(best.size(), i + k);
        std::vector<uint64_t> c(best.begin(), best.begin() + i);
        c.insert(c.end(), best.begin() + e, best.end());
        if (tryit(c)) { improved = true; continue; }
        bool nz = false;
        for (size_t j = i; j < e; ++j) nz |= best[j] != 0;
        if (nz) {
          c = best;
          std::fill(c.begin() + i, c.begin() + e, 0);
          if (tryit(c)) improved = true;
        }
        i += k;
      }
      if (k == 1) break;
    }
    // lower values
    for (size_t i = 0; i < best.size() && now() - t0 < wall; ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && now() - t0 < wall) {
        std::vector<uint64_t> c = best;
        c[i]                    = lo + (best[i] - lo) / 2;
        if (tryit(c)) improved = true;
        else lo = c[i] + 1;
      }
    }
  }
  return best;
}

static std::vector<uint64_t> read_replay(const std::string &f, std::string &name) {
  std::ifstream         is(f);
  std::string           w;
  std::vector<uint64_t> ch;
  is >> w >> name;
  uint64_t v;
  while (is >> v) ch.push_back(v);
  return ch;
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.substr(0, 2) == "--") {
      if (i + 1 < argc && std::string(argv[i + 1]).substr(0, 2) != "--") o[a.substr(2)] = argv[++i];
      else o[a.substr(2)] = "1";
    }
  }
  auto &reg = registry();
  std::sort(reg.begin(), reg.end(), [](const Prop &a, const Prop &b) { return a.name < b.name; });
  if (o.count("cpu")) g_cpu = atof(o["cpu"].c_str());
  if (o.count("list")) {
    for (auto &p : reg) printf("%s %ld %ld\n", p.name.c_str(), p.quick, p.thorough);
    return 0;
  }
  if (o.count("replay")) {
    std::string name;
    auto        ch = read_replay(o["replay"], name);
    for (auto &p : reg)
      if (p.name == name) {
        if (o.count("direct")) {  // no fork: for debuggers
          Src s(ch); Ctx c; std::string msg;
          int r = run_case(p, s, c, msg);
          printf("%s\n%s\nresult=%d\n", c.desc.str().c_str(), msg.c_str(), r);
          return r;
        }
        Shm *sh = new_shm();
        char tn[] = "/tmp/pbtreplayXXXXXX";
        int  fd = mkstemp(tn);
        unlink(tn);
        int r = single(p, &ch, 0, sh, fd);
        printf("%s\n", sh->desc);
        if (r == R_FAIL) printf("REPLAY-FAIL %s\n", sh->msg);
        if (r == R_PASS) printf("REPLAY-PASS\n");
        return r;
      }
    printf("no property %s in this binary\n", name.c_str());
    return 2;
  }
  uint64_t    seed = strtoull(o["seed"].c_str(), nullptr, 10);
  bool        thorough = o["tier"] == "thorough";
  int         W    = o.count("workers") ? atoi(o["workers"].c_str()) : 8;
  double      wall = o.count("wall") ? atof(o["wall"].c_str()) : 300;
  double      scale = o.count("scale") ? atof(o["scale"].c_str()) : 1;
  std::string out  = o["out"];
  double      t0   = now();
  Glob *gl = (Glob *)mmap(nullptr, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)gl, 0, sizeof(Glob));

  // every worker owns the indices i = w (mod W) of every property
  std::vector<pid_t> pids;
  for (int w = 0; w < W; ++w) {
    pid_t pid = fork();
    if (pid) { pids.push_back(pid); continue; }
    Shm *       sh  = new_shm();
    std::string ef  = out + "/stderr." + std::to_string(w);
    int         efd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    int         nf  = 0;
    for (size_t pi = 0; pi < reg.size(); ++pi) {
      const Prop &p = reg[pi];
      if (o.count("only") && p.name.find(o["only"]) == std::string::npos) continue;
      long     N  = (long)((thorough ? p.thorough : p.quick) * scale);
      uint64_t hs = mix64(seed * 1000003 + 17) ^ hash_str(p.name);
      long     next = w;
      while (next < N && !gl->failed[pi] && now() - t0 < wall) {
        // runner child: goes on until a failure
        if (ftruncate(efd, 0)) {}
        lseek(efd, 0, SEEK_SET);
        sh->idx    = -1;
        sh->result = -1;
        pid_t c = fork();
        if (c == 0) {
          dup2(efd, 2); dup2(efd, 1);
          long                         ev = 0, disc = 0, nt = 0;
          std::map<std::string, long>  labels;
          std::unordered_set<uint64_t> hashes;
          std::vector<std::string>     samples;
          int                          rc = R_PASS;
          long                         i  = next;
          for (; i < N && !gl->failed[pi]; i += W) {
            if (now() - t0 > wall) break;
            sh->idx = i;
            arm();
            Src         s(mix64(hs + 0x1000193ull * (uint64_t)i));
            Ctx         cx;
            std::string msg;
            int         r = run_case(p, s, cx, msg);
            if (r == R_FAIL) { rc = R_FAIL; break; }
            ++ev;
            if (r == R_DISCARD) ++disc;
            for (auto &l : cx.labels) labels[l.first] += l.second > 0;
            if (r == R_PASS && cx.nontriv) {
              ++nt;
              uint64_t h = 0x1234567;
              for (auto v : s.rec) h = mix64(h ^ v);
              hashes.insert(h);
              if (samples.size() < 3) samples.push_back(cx.desc.str().substr(0, 1500));
            }
            // keep the captured output small
            if ((ev & 63) == 0) { fflush(stdout); fflush(stderr); if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET); }
          }
          std::ofstream f(out + "/stat." + p.name + "." + std::to_string(w), std::ios::app);
          f << "{\"prop\":\"" << jesc(p.name) << "\",\"ev\":" << ev << ",\"disc\":" << disc << ",\"nt\":" << nt
            << ",\"distinct\":" << hashes.size() << ",\"labels\":{";
          bool first = true;
          for (auto &l : labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
          f << "},\"samples\":[";
          first = true;
          for (auto &s : samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
          f << "]}\n";
          f.close();
          _exit(rc);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == R_PASS) { next = N; break; }
        long bad = sh->idx;
        if (bad < 0) break;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) { next = bad + W; continue; }  // memory guard
        // reproduce from the seed, recording choices
        uint64_t cs = mix64(hs + 0x1000193ull * (uint64_t)bad);
        int      r  = single(p, nullptr, cs, sh, efd);
        if (r != R_FAIL) {  // state carried over between cases? try once more, then drop
          r = single(p, nullptr, cs, sh, efd);
          if (r != R_FAIL) {
            std::ofstream f(out + "/flaky." + std::to_string(w), std::ios::app);
            f << p.name << " " << bad << "\n";
            next = bad + W;
            continue;
          }
        }
        gl->failed[pi] = 1;
        std::vector<uint64_t> ch(sh->choices, sh->choices + std::min<uint64_t>(sh->nchoices, 1 << 20));
        std::string           m0 = sh->msg;
        int                   attempts = 0;
        g_cpu = std::min(g_cpu, 10.0);
        std::vector<uint64_t> small = shrink(p, ch, sh, efd, m0.find("time-out") != std::string::npos ? 40 : 25, attempts);
        g_cpu = o.count("cpu") ? atof(o["cpu"].c_str()) : 30;
        // replay 3 times
        int ok = 0;
        for (int k = 0; k < 3; ++k) ok += single(p, &small, 0, sh, efd) == R_FAIL;
        if (ok < 3) {
          small = ch;
          ok    = 0;
          for (int k = 0; k < 3; ++k) ok += single(p, &small, 0, sh, efd) == R_FAIL;
        }
        std::string base = out + "/fail." + p.name + "." + std::to_string(w);
        write_replay(base + ".replay", p, small);
        std::ofstream f(base + ".json");
        f << "{\"prop\":\"" << jesc(p.name) << "\",\"index\":" << bad << ",\"reproduced\":" << ok
          << ",\"attempts\":" << attempts << ",\"choices\":" << small.size() << ",\"msg\":\"" << jesc(sh->msg)
          << "\",\"orig_msg\":\"" << jesc(m0) << "\",\"desc\":\"" << jesc(sh->desc) << "\"}\n";
        ++nf;
      }
    }
    _exit(0);
  }
  for (auto p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  }
  printf("wall %.1f\n", now() - t0);
  return 0;
}
#endif
