// End to end on expressions: parser, compiler and matcher against the
// denotational oracle. Expressions are all those over {a,b,$} with a given
// number of operators, and the idiomatic shapes X$, (X$)%I, X($%I) for larger X.
#include "pool.hh"
#include "tre_oracle.hh"
#include "monaa/tre_driver.hh"
#include "impl.hh"
#include <sstream>
using namespace vp;
static std::vector<TreP> all;
static std::vector<std::shared_ptr<TreGen>> keep;
static const std::vector<Iv> full = {
    {2, false, 4, false, "(2,4)"}, {2, false, -1, false, "(>2)"}, {0, true, 2, true, "(<=2)"}, {2, true, 2, true, "(=2)"},
    {2, true, 4, true, "[2,4]"}, {0, true, 2, false, "(<2)"}, {2, true, -1, false, "(>=2)"}, {2, true, 4, false, "[2,4)"},
    {2, false, 4, true, "(2,4]"}, {0, true, 4, true, "[0,4]"}};
static std::shared_ptr<TreGen> mk(const char *letters, int nIv, int size, bool star = true) {
  auto p = std::make_shared<TreGen>();
  p->letters = letters;
  p->ivs.assign(full.begin(), full.begin() + nIv);
  p->star = star;
  p->build(size);
  keep.push_back(p);
  return p;
}
static bool has(const TreP &t, char c) { return (t->op == Tre::ATOM && t->c == c) || (t->l && has(t->l, c)) || (t->r && has(t->r, c)); }

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  {
    auto p = mk("ab$", 10, 2);
    for (int k = 0; k <= 2; k++) for (auto &t : p->by[k]) if (has(t, '$')) all.push_back(t);
    auto q = mk("a$", th ? 4 : 2, 3);
    for (auto &t : q->by[3]) if (has(t, '$')) all.push_back(t);
  }
  TreP end = tAtom('$');
  auto shapes = [&](const TreP &x, int nIv) {
    all.push_back(tBin(Tre::CAT, x, end));
    for (int i = 0; i < nIv; i++) {
      all.push_back(tUn(Tre::WITHIN, tBin(Tre::CAT, x, end), &full[i]));
      all.push_back(tBin(Tre::CAT, x, tUn(Tre::WITHIN, end, &full[i])));
    }
  };
  {
    auto p = mk("ab", th ? 10 : 4, 2);
    for (auto &t : p->by[0]) shapes(t, 10);
    for (auto &t : p->by[1]) shapes(t, 10);
    for (auto &t : p->by[2]) shapes(t, th ? 4 : 1);
    auto q = mk("ab", th ? 2 : 1, 3);
    for (auto &t : q->by[3]) shapes(t, th ? 1 : 0);
  }
  if (o.only < 0) printf("expressions %zu\n", all.size());
  Alpha al{"ab", {1, 2, 3}};
  std::vector<Word> logs;
  logs.push_back({});
  for (int len = 1; len <= 3; len++) {
    if (len == 3) al.gaps = {1, 3};
    std::vector<int> s(len, 0);
    for (;;) {
      logs.push_back(mkWord(al, s));
      int p = 0;
      while (p < len && ++s[p] == al.size()) s[p++] = 0;
      if (p == len) break;
    }
  }
  al.gaps = {1, 3};
  Word longLog = mkWord(al, deBruijn(al.size(), 2));
  const uint64_t CH = 2;
  return runPool(o, (all.size() + CH - 1) / CH, [&](uint64_t chunk) {
    for (uint64_t i = chunk * CH; i < std::min<uint64_t>(all.size(), chunk * CH + CH); i++) {
      const TreP &t = all[i];
      std::string text = treStr(t);
      phase(text);
      std::stringstream ss;
      ss << text;
      TREDriver drv;
      if (!drv.parse(ss)) { fail(chunk, "parse", text, "a well-formed expression was rejected"); continue; }
      TimedAutomaton R;
      drv.getResult()->toEventTA(R);
      int tail = treConst(t) + 2;
      uint64_t st = 0, nm = 0;
      for (size_t k = 0; k <= logs.size(); k++) {
        const Word &w = k < logs.size() ? logs[k] : longLog;
        if (w.size() == 3 && !th && i % 9) continue;
        PairSet want, got;
        if (k < logs.size()) treMatchNaive(t, w, tail, want, st);
        else { TreMatcher m(t, w); m.run(tail, want, st); }
        phase(text + " on " + wordStr(w));
        int rc = implMatch(R, w, DOLLAR, tail, got);
        count(TRACES); count(EVALS);
        nm += want.size();
        if (!want.empty()) count(NONTRIVIAL);
        if (rc == 10 && want.empty()) { count(AUX1); continue; }
        if (rc) { fail(chunk, "exit", text + " on " + wordStr(w), "the library exited with " + std::to_string(rc)); break; }
        if (want != got) { fail(chunk, "mismatch", text + " on " + wordStr(w), pairDiff(want, got)); break; }
      }
      count(STATES, st); count(TRANSITIONS, st); count(MATCHES, nm);
      if (i % 1999 == 0) sample(text + ": " + std::to_string(nm) + " matching (t,t') on the grid over " + std::to_string(logs.size() + 1) + " logs");
    }
  }, [&](uint64_t c) { return treStr(all[std::min<uint64_t>(all.size() - 1, c * CH)]) + " and following"; });
}
