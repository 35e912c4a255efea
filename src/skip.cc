// Skip values: the real SundaySkipValue and KMPSkipValue of every pattern,
// against (1) the region graph of the pattern for the length of a shortest
// match and the letters at each position, and (2) every log up to a length:
// no shift may jump over a beginning at which the oracle has a match.
#include "families.hh"
#include "impl.hh"
#include "regions.hh"
#include "libmonaa/kmp_skip_value.hh"
#include "libmonaa/sunday_skip_value.hh"
#include <unordered_map>
using namespace vp;
struct RefSkip {
  int m = 0; // 0: empty language
  std::vector<std::set<char>> letters; // letters[k]: letter k of some accepted word, k < m
};
// unobservable transitions are labelled with the null character
static RefSkip reference(const TA &A, uint64_t &st, uint64_t &tr) {
  Regions R(A);
  std::set<char> al;
  for (auto &e : A.e) al.insert(e.a);
  std::map<Regions::C, int> id;
  std::vector<Regions::C> cs;
  std::vector<std::vector<std::pair<char, int>>> succ;
  auto get = [&](const Regions::C &c) {
    auto it = id.find(c);
    if (it != id.end()) return it->second;
    id[c] = cs.size();
    cs.push_back(c);
    succ.emplace_back();
    return (int)cs.size() - 1;
  };
  std::vector<int> init;
  for (auto &c : R.initial()) init.push_back(get(c));
  for (size_t i = 0; i < cs.size(); i++) {
    auto c = cs[i];
    for (char a : al)
      for (auto &d : R.post({c}, a, &tr)) { int k = get(d); succ[i].push_back({a, k}); }
  }
  st += cs.size();
  std::vector<char> live(cs.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (live[i]) continue;
      bool l = A.acc[cs[i].s];
      for (auto &p : succ[i]) l = l || live[p.second];
      if (l) { live[i] = 1; ch = true; }
    }
  }
  auto closure = [&](std::set<int> &x) {
    std::vector<int> todo(x.begin(), x.end());
    while (!todo.empty()) {
      int c = todo.back();
      todo.pop_back();
      for (auto &p : succ[c]) if (p.first == 0 && x.insert(p.second).second) todo.push_back(p.second);
    }
  };
  RefSkip r;
  std::set<int> level(init.begin(), init.end());
  closure(level);
  std::set<std::set<int>> seen;
  for (int k = 0;; k++) {
    std::set<int> nxt;
    std::set<char> l;
    bool acc = false;
    for (int c : level)
      for (auto &p : succ[c]) {
        if (p.first == 0 || !live[p.second]) continue;
        l.insert(p.first);
        nxt.insert(p.second);
        acc = acc || A.acc[cs[p.second].s];
      }
    closure(nxt);
    r.letters.push_back(l);
    if (acc) { r.m = k + 1; return r; }
    if (nxt.empty() || !seen.insert(nxt).second) return r;
    level = nxt;
  }
}

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  struct Fam { Family f; Mode mode; int len; };
  std::vector<Fam> fs;
  auto G24 = guards1(0, {2, 4}), G2 = guards1(0, {2});
  std::vector<Guard> few = {{}, {{0, LT, 2}}, {{0, GE, 2}}}, few5 = {{}, {{0, LT, 2}}, {{0, GT, 2}}, {{0, GE, 4}}, {{0, LE, 4}}};
  std::vector<Guard> two = {{}, {{0, LT, 2}}, {{0, GE, 2}}, {{1, LT, 4}}, {{1, GT, 4}}};
  std::vector<Guard> twoQ = {{}, {{0, LE, 2}}, {{1, GE, 4}}};
  auto add = [&](Family f, Mode m, int len) { fs.push_back({f, m, len}); };
  add(chain1(0, G24, G24, "ab"), DOLLAR, 2);
  add(chain1(1, G24, G24, "ab"), DOLLAR, 3);
  add(chain1(2, few5, few, "ab"), DOLLAR, 4);
  add(chain1(3, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}, {{0, GT, 2}}}, "ab"), DOLLAR, th ? 5 : 4);
  add(chain2(2, th ? two : twoQ, two, {"aa", "ab"}), DOLLAR, 4);
  add(chain2(3, twoQ, {{}}, {"aaa", "aba"}), DOLLAR, th ? 5 : 4);
  add(graph(2, 2, th ? few5 : few, few, "ab"), DOLLAR, 4);
  add(graph(3, 3, th ? few : std::vector<Guard>{{}, {{0, GE, 2}}}, {{}}, "ab"), DOLLAR, 4);
  add(unionChains(1, 2, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}}, "ab"), DOLLAR, 4);
  add(acceptMask(graph(2, 2, few, {{}}, "ab"), 1, 1), NOT_NEC, 4);
  add(acceptMask(chain1(2, few, few, "ab"), 2, 1), NOT_NEC, 4);
  add(finalLetter(chain1(1, few5, few5, "ab"), "ab"), SIGNAL, 3);
  add(finalLetter(chain1(2, few, few, "ab"), "ab"), SIGNAL, 4);
  // matches shorter than the run that was followed
  std::vector<Guard> lo = {{}, {{0, LE, 2}}, {{0, GE, 2}}};
  add(unionChains(2, 4, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}}, "a"), DOLLAR, 5);
  add(finalLetter(unionChains(1, 3, th ? few5 : lo, lo, "a"), "ab"), SIGNAL, 4);
  add(acceptMask(parallel(2, few, few, "a"), 2, 1), NOT_NEC, 4);
  add(finalLetter(parallel(2, few, few, "a"), "a"), SIGNAL, 4);
  add(parallel(3, {{}, {{0, LE, 2}}}, few, "a"), DOLLAR, 4);
  // with unobservable transitions: only the length and the letters are compared
  add(graph(2, 2, few5, few5, std::string("a\0", 2)), DOLLAR, 0);
  add(graph(3, 3, few, few, std::string("a\0", 2)), DOLLAR, 0);
  // larger patterns: only the length and the letters are compared
  add(chain1(3, few5, few, "ab"), DOLLAR, 0);
  add(graph(3, 3, few, few, "ab"), DOLLAR, 0);
  add(graph(3, 4, {{}, {{0, LT, 2}}}, {{}}, "ab"), DOLLAR, 0);
  add(graph(4, 4, {{}, {{0, GE, 2}}}, {{{0, LT, 2}}}, "ab"), DOLLAR, 0);
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto &f : fs) { base.push_back(total); total += f.f.size; if (o.only < 0) printf("%s %llu\n", f.f.name.c_str(), (unsigned long long)f.f.size); }
  auto locate = [&](uint64_t i, uint64_t &off) -> Fam & {
    size_t k = 0;
    while (k + 1 < fs.size() && i >= base[k + 1]) k++;
    off = i - base[k];
    return fs[k];
  };
  Alpha al{"ab", {1, 2, 3}};
  std::vector<std::vector<Word>> words(6);
  for (int len = 1; len <= 5; len++) {
    Alpha use = len == 5 ? Alpha{"ab", {1, 3}} : al;
    std::vector<int> s(len, 0);
    for (;;) {
      words[len].push_back(mkWord(use, s));
      int p = 0;
      while (p < len && ++s[p] == use.size()) s[p++] = 0;
      if (p == len) break;
    }
  }
  return runPool(o, total, [&](uint64_t i) {
    uint64_t off;
    Fam &f = locate(i, off);
    TA A = f.f.make(off);
    TimedAutomaton R = toRepo(A);
    uint64_t st = 0, tr = 0;
    RefSkip ref = reference(A, st, tr);
    phase("SundaySkipValue");
    static SundaySkipValue *sv;
    sv = nullptr;
    vpExitArmed = 1;
    if (setjmp(vpExitJmp)) {
      vpExitArmed = 0;
      count(STATES, st); count(TRANSITIONS, tr); count(EVALS);
      if (vpExitCode != 10 || ref.m) fail(i, "exit", A.str(), "exit " + std::to_string(vpExitCode) + " although the shortest match has " + std::to_string(ref.m) + " letters");
      return;
    }
    sv = new SundaySkipValue(R);
    vpExitArmed = 0;
    std::unique_ptr<SundaySkipValue> hold(sv);
    count(STATES, st); count(TRANSITIONS, tr); count(TRACES); count(EVALS); count(NONTRIVIAL);
    const int m = sv->getM();
    if (m != ref.m) { fail(i, "length", A.str(), "m is " + std::to_string(m) + ", the shortest match has " + std::to_string(ref.m) + " letters"); return; }
    for (int c = 0; c < 300; c++) {
      int bound = m + 1;
      if (c < 128) for (int s = m; s >= 1; s--) if (ref.letters[m - s].count((char)c)) bound = s;
      int got = (int)(*sv)[c];
      if (got < 1 || got > bound) { fail(i, "delta", A.str(), "the shift for character " + std::to_string(c) + " is " + std::to_string(got) + ", a match may begin " + std::to_string(bound) + " later"); return; }
      if (c < CHAR_MAX && (int)sv->at(c) != got) { fail(i, "delta", A.str(), "at() and operator[] disagree"); return; }
    }
    std::unordered_set<char> endChars;
    sv->getEndChars(endChars);
    for (char c : ref.letters[m - 1]) if (!endChars.count(c)) { fail(i, "endchars", A.str(), std::string("letter ") + c + " can be the m-th letter but is not an end character"); return; }
    if (i % 2003 == 0) sample(A.str() + ": m=" + std::to_string(m));
    if (!f.len) return;
    phase("KMPSkipValue");
    KMPSkipValue kmp(R, m);
    for (auto &s : R.states) if (kmp[s] < 1) { fail(i, "beta", A.str(), "a shift below 1"); return; }
    std::vector<int> beta(A.n);
    int maxBeta = 1;
    for (int s = 0; s < A.n; s++) {
      beta[s] = kmp[R.states[s]];
      if (kmp.at(R.states[s]) != beta[s] || kmp.at(R.states[s].get()) != beta[s] || kmp[R.states[s].get()] != beta[s]) { fail(i, "beta", A.str(), "the four look-ups disagree"); return; }
      maxBeta = std::max(maxBeta, beta[s]);
    }
    count(AUX1, maxBeta > 1);
    if (maxBeta == 1) return; // nothing is skipped
    std::vector<std::vector<const E *>> edges(A.n);
    for (auto &e : A.e) edges[e.s].push_back(&e);
    phase("logs");
    for (int len = 1; len <= f.len; len++)
      for (auto &w : words[len]) {
        // largest shift justified by a state reached from a beginning before event 0
        int shift = 1, at = -1, after = 0;
        std::vector<Cfg> cur, nxt;
        for (int t = 0; t < 4 * w[0].t; t++) for (int s : A.init) cur.push_back(Cfg(s, t));
        for (int j = 0; j <= len; j++) {
          for (auto &c : cur) if (beta[c.s] > shift) { shift = beta[c.s]; at = c.s; after = j; }
          if (j == len || cur.empty()) break;
          nxt.clear();
          for (auto &c : cur)
            for (auto e : edges[c.s])
              if (e->a == w[j].a) {
                bool ok = true;
                for (auto &g : e->g) ok = ok && sat(4 * w[j].t - c.rt[g.x], g);
                if (!ok) continue;
                Cfg d = c;
                d.s = e->d;
                for (int x : e->r) d.rt[x] = 4 * w[j].t;
                nxt.push_back(d);
              }
          std::sort(nxt.begin(), nxt.end());
          nxt.erase(std::unique(nxt.begin(), nxt.end()), nxt.end());
          cur.swap(nxt);
        }
        count(TRACES); count(EVALS);
        if (shift == 1) continue;
        count(AUX2);
        PairSet want;
        OracleStats os;
        oracleMatch(A, w, f.mode, A.maxConst() + 2, true, want, os);
        count(STATES, os.states); count(TRANSITIONS, os.transitions);
        for (uint64_t p : want) {
          int t = (int)(p >> 32), k = 0; // beginning window: number of events at or before t
          while (k < len && 4 * w[k].t <= t) k++;
          if (k >= 1 && k < shift) {
            fail(i, "beta", A.str() + " on " + wordStr(w), "state " + std::to_string(at) + " reached after " + std::to_string(after) + " events shifts by " + std::to_string(shift) +
                 " but a match begins " + std::to_string(k) + " later, at " + std::to_string(t / 4.0));
            return;
          }
        }
      }
  }, [&](uint64_t i) { uint64_t off; Fam &f = locate(i, off); return f.f.make(off).str(); });
}
