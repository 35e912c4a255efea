// Event-mode matching: every pattern of the families below is run through the
// real monaaDollar on a log containing every window of letters and gaps, and on
// every short word; the reported zones must denote exactly the oracle's pairs.
#include "match_families.hh"
#include "impl.hh"
#include "pool.hh"
using namespace vp;

static Mode mode = DOLLAR;
static void runOne(int64_t idx, const TA &A, const TimedAutomaton &R, const Word &w, const char *what) {
  static PairSet want, got;
  want.clear(); got.clear();
  OracleStats st;
  int tail = A.maxConst() + 2;
  bool eps = false;
  for (auto &e : A.e) eps = eps || e.a == 0;
  if (eps) oracleSignalEps(A, w, want, st);
  else oracleMatch(A, w, mode, tail, true, want, st);
  phase(std::string(what) + " word=" + (w.size() < 60 ? wordStr(w) : "debruijn"));
  int rc = implMatch(R, w, mode, tail, got);
  count(STATES, st.states); count(TRANSITIONS, st.transitions); count(TRACES); count(EVALS);
  count(MATCHES, want.size());
  if (!want.empty()) count(NONTRIVIAL);
  if (rc == 10 && want.empty()) { count(AUX1); return; } // a pattern with an empty language
  if (rc) { fail(idx, "exit", A.str() + " on " + what, "library exited with " + std::to_string(rc) + ", the oracle has " + std::to_string(want.size()) + " matches"); return; }
  if (want != got) fail(idx, "mismatch", A.str() + " on " + (w.size() < 60 ? wordStr(w) : what), pairDiff(want, got));
}

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  for (auto &a : o.rest) {
    if (a == "signal") mode = SIGNAL;
    if (a == "notnec") mode = NOT_NEC;
  }
  auto fs = matchFamilies(o.tier, mode);
  for (auto &a : o.rest) if (a == "eps") { std::vector<Family> k; for (auto &f : fs) if (f.window == 1) k.push_back(f); fs = k; }
  for (auto &a : o.rest) if (a.rfind("fam=", 0) == 0) fs = {fs.at(atoi(a.c_str() + 4))};
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto &f : fs) { base.push_back(total); total += f.size; if (o.only < 0) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.size); }
  auto locate = [&](uint64_t i, uint64_t &off) -> Family & {
    size_t k = 0;
    while (k + 1 < fs.size() && i >= base[k + 1]) k++;
    off = i - base[k];
    return fs[k];
  };
  std::map<int, Word> logs;
  std::vector<Word> shorts;
  Alpha al = fs[0].alpha;
  for (int k = 2; k <= 4; k++) logs[k] = mkWord(al, deBruijn(al.size(), k));
  shorts.push_back({});
  for (int len = 1; len <= 2; len++) {
    std::vector<int> s(len, 0);
    for (;;) {
      shorts.push_back(mkWord(al, s));
      int p = 0;
      while (p < len && ++s[p] == al.size()) s[p++] = 0;
      if (p == len) break;
    }
  }
  std::vector<Word> quick; // events at 1, 2, 3, ...
  for (int len = 3; len <= 4; len++)
    for (int k = 0; k < 1 << len; k++) {
      std::vector<int> s;
      for (int x = 0; x < len; x++) s.push_back(k >> x & 1);
      quick.push_back(mkWord(Alpha{"ab", {1}}, s));
    }
  const Alpha a3{"ab", {1, 3}};
  const Word log3 = mkWord(a3, deBruijn(4, 3));
  std::map<int, std::vector<Word>> longLogs; // every window of letters; events at 1, 2, 3, ... or with every third gap 2
  for (int k = 4; k <= 8; k++) {
    Word w = mkWord(Alpha{"ab", {1}}, deBruijn(2, k));
    longLogs[k].push_back(w);
    int late = 0, n = 0;
    for (auto &e : w) { late += n++ % 3 == 1; e.t += late; }
    longLogs[k].push_back(w);
  }
  return runPool(o, total, [&](uint64_t i) {
    uint64_t off;
    Family &f = locate(i, off);
    TA A = f.make(off);
    TimedAutomaton R = toRepo(A);
    if (f.window == 1) { // unobservable transitions
      if (f.name == "parallel.crowd") {
        for (int k = 0; k < 3; k++) runOne(i, A, R, shorts[k], "short");
        for (int k = 0; k < 5; k++) runOne(i, A, R, quick[k], "quick");
        return;
      }
      if (off % 16 && (f.name.rfind("parallel", 0) == 0 || f.name.rfind("union", 0) == 0)) { // many runs at once
        for (int k = 0; k < 7; k++) runOne(i, A, R, shorts[k], "short");
        for (int k = 0; k < 8; k++) runOne(i, A, R, quick[k], "quick");
        return;
      }
      if (cyclicEps(A)) { // short logs only: the finer the grid, the more often the cycle can be taken
        for (auto &w : shorts) runOne(i, A, R, w, "short");
        for (auto &w : quick) runOne(i, A, R, w, "quick");
        return;
      }
      runOne(i, A, R, logs[2], "debruijn2");
      runOne(i, A, R, log3, "debruijn3 over 2 letters x 2 gaps");
      for (int k = 0; k < 7; k++) runOne(i, A, R, shorts[k], "short");
      if (off == 0) sample(f.name + ": " + A.str());
      return;
    }
    if (f.shortLen == 0) { // long patterns
      for (auto &w : longLogs[f.window]) runOne(i, A, R, w, "long");
      if (off % 4999 == 0) sample(f.name + ": " + A.str());
      return;
    }
    runOne(i, A, R, logs[f.window], ("debruijn" + std::to_string(f.window)).c_str());
    if (i % 37 == 0 || f.size < (o.tier == "thorough" ? 6000 : 700))
      for (auto &w : shorts) runOne(i, A, R, w, "short");
    if (off == 0) sample(f.name + ": " + A.str());
  }, [&](uint64_t i) { uint64_t off; Family &f = locate(i, off); return f.make(off).str(); });
}
