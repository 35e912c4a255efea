// Running the repository's executables and reading what they print.
#pragma once
#include "pool.hh"
#include "ta.hh"
#include <cmath>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/stat.h>
extern char **environ;
namespace vp {
static inline std::string envOr(const char *n) {
  const char *v = getenv(n);
  if (!v) { fprintf(stderr, "%s is not set\n", n); _exit(77); }
  return v;
}
static inline std::string tmpDir() { // one per worker
  static std::string d;
  if (d.empty()) { d = envOr("VP_TMP") + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); }
  return d;
}
static inline void writeFile(const std::string &p, const std::string &data) {
  FILE *f = fopen(p.c_str(), "w");
  if (!f || fwrite(data.data(), 1, data.size(), f) != data.size()) { perror(p.c_str()); _exit(77); }
  fclose(f);
}
static inline std::string readFile(const std::string &p) {
  FILE *f = fopen(p.c_str(), "r");
  if (!f) return "";
  std::string s;
  char b[4096];
  for (size_t k; (k = fread(b, 1, sizeof b, f)) > 0;) s.append(b, k);
  fclose(f);
  return s;
}
struct Res { int status = 0; std::string out, err; }; // status: exit code, 1000+signal, -1 timeout
// stdin from a file ("" = nothing); stdout and stderr are captured in files
static inline Res runCli(const std::vector<std::string> &argv, const std::string &stdinFile, double timeout = 30) {
  Res r;
  std::string o = tmpDir() + "/stdout", e = tmpDir() + "/stderr";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, stdinFile.empty() ? "/dev/null" : stdinFile.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  std::vector<char *> a;
  for (auto &s : argv) a.push_back((char *)s.c_str());
  a.push_back(nullptr);
  pid_t p;
  if (posix_spawn(&p, argv[0].c_str(), &fa, nullptr, a.data(), environ)) { perror(argv[0].c_str()); _exit(77); }
  posix_spawn_file_actions_destroy(&fa);
  int st = 0;
  int64_t t0 = nowMs();
  for (int spin = 0;; spin++) {
    pid_t k = waitpid(p, &st, WNOHANG);
    if (k == p) break;
    if (nowMs() - t0 > timeout * 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); r.status = -1; r.out = readFile(o); r.err = readFile(e); return r; }
    usleep(spin < 50 ? 100 : 2000);
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = readFile(o);
  r.err = readFile(e);
  return r;
}
// one printed block: lower and upper bounds (with strictness) of t, t', t' - t
struct Block { double lo[3], hi[3]; bool loC[3], hiC[3]; };
// false if the text is not a sequence of blocks
static inline bool readBlocks(const std::string &s, std::vector<Block> &out, std::string &why) {
  std::vector<std::vector<std::string>> lines;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) { why = "unterminated line"; return false; }
    std::vector<std::string> tok;
    std::string t;
    for (char c : s.substr(p, q - p) + " ") { if (c == ' ' || c == '\t') { if (!t.empty()) tok.push_back(t); t.clear(); } else t += c; }
    lines.push_back(tok);
    p = q + 1;
  }
  if (lines.size() % 4) { why = "incomplete block"; return false; }
  for (size_t i = 0; i < lines.size(); i += 4) {
    Block b;
    for (int k = 0; k < 3; k++) {
      auto &l = lines[i + k];
      std::vector<std::string> mid = k == 0 ? std::vector<std::string>{"t"} : k == 1 ? std::vector<std::string>{"t'"} : std::vector<std::string>{"t'", "-", "t"};
      if (l.size() != mid.size() + 4 || !std::equal(mid.begin(), mid.end(), l.begin() + 2)) { why = "line " + std::to_string(i + k) + " is not an inequality of the expected variable"; return false; }
      char *e1, *e2;
      b.lo[k] = strtod(l[0].c_str(), &e1);
      b.hi[k] = strtod(l.back().c_str(), &e2);
      const std::string &o1 = l[1], &o2 = l[l.size() - 2];
      if (*e1 || *e2 || (o1 != "<" && o1 != "<=") || (o2 != "<" && o2 != "<=")) { why = "line " + std::to_string(i + k) + " is not an inequality"; return false; }
      b.loC[k] = o1 == "<=";
      b.hiC[k] = o2 == "<=";
    }
    if (lines[i + 3].size() != 1 || lines[i + 3][0].find_first_not_of('=') != std::string::npos) { why = "no separator line"; return false; }
    out.push_back(b);
  }
  return true;
}
// the (t,t') of the blocks on the quarter grid of the unit (shifted by `shift` time units), t in [0, tailQ]
static inline void rasterBlocks(const std::vector<Block> &bs, double perUnit, double shift, long tailQ, PairSet &out) {
  for (auto &b : bs) {
    long lo[3], hi[3];
    for (int k = 0; k < 3; k++) {
      // printed numbers are rounded: take the nearest grid point
      double off = k < 2 ? shift : 0;
      auto grid = [&](double v) { return (v - off) * perUnit * 4; };
      double l = grid(b.lo[k]), h = grid(b.hi[k]);
      auto lowIx = [&](double v, bool c) -> long {
        if (v < -1e12) return -1000000000000L;
        if (v > 1e12) return 1000000000000L;
        double n = std::round(v);
        if (std::fabs(v - n) < 0.02 * 1) return (long)n + (c ? 0 : 1);
        return (long)std::ceil(v);
      };
      auto highIx = [&](double v, bool c) -> long {
        if (v > 1e12) return 1000000000000L;
        if (v < -1e12) return -1000000000000L;
        double n = std::round(v);
        if (std::fabs(v - n) < 0.02 * 1) return (long)n - (c ? 0 : 1);
        return (long)std::floor(v);
      };
      lo[k] = lowIx(l, b.loC[k]);
      hi[k] = highIx(h, b.hiC[k]);
    }
    for (long t = std::max(0L, lo[0]); t <= std::min(tailQ, hi[0]); t++) {
      long a = std::max({lo[1], t + lo[2], t + 1}), z = std::min({hi[1], t + hi[2], tailQ});
      for (long u = a; u <= z; u++) out.push_back(code((int)t, (int)u));
    }
  }
  normalise(out);
}
} // namespace vp
