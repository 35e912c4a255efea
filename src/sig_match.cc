// End to end on signals: parser, compiler for signals and signal-mode matcher
// against the denotation of the expression, for every expression up to a size
// and every log whose consecutive events have different letters.
#include "pool.hh"
#include "sig.hh"
#include "monaa/tre_driver.hh"
#include "monaa/intermediate_tre.hh"
#include "impl.hh"
#include <sstream>
using namespace vp;
static const int Q = 24; // grid steps per unit
static std::vector<TreP> all;
// The skip values of these take seconds: fewer logs.
static bool within(const TreP &t) { return t && (t->op == Tre::WITHIN || within(t->l) || within(t->r)); }
static bool slow(const TreP &t) { return t && (((t->op == Tre::PLUS || t->op == Tre::STAR) && (t->l->op == Tre::OR || t->l->op == Tre::PLUS || t->l->op == Tre::STAR) && within(t->l)) || slow(t->l) || slow(t->r)); }
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  static const std::vector<Iv> ivs = {{1, true, 2, true, "[1,2]"}, {0, true, 1, false, "<1"}, {1, false, -1, false, ">1"}, {1, false, 3, false, "(1,3)"}, {2, true, -1, false, ">=2"}, {0, true, 2, true, "<=2"}};
  auto add = [&](size_t nIv, int from, int to, uint64_t step) {
    static std::vector<std::shared_ptr<TreGen>> keep;
    auto p = std::make_shared<TreGen>();
    p->letters = "ab";
    p->ivs.assign(ivs.begin(), ivs.begin() + nIv);
    p->build(to);
    keep.push_back(p);
    for (int k = from; k <= to; k++)
      for (size_t i = 0; i < p->by[k].size(); i += k < 3 ? 1 : step) all.push_back(p->by[k][i]);
  };
  add(ivs.size(), 0, 2, 1);
  add(th ? 3 : 2, 3, 3, th ? 1 : 5);
  if (o.only < 0) printf("expressions %zu\n", all.size());
  std::vector<Word> logs;
  for (int n = 1; n <= 4; n++)
    for (int first = 0; first < 2; first++) {
      std::vector<int> d(n, 1);
      for (;;) {
        int p = 0;
        Word w;
        for (int i = 0; i < n; i++) w.push_back({(first + i) % 2 ? 'b' : 'a', p += d[i]});
        if (p <= (n == 4 ? th ? 5 : 4 : 5)) logs.push_back(w);
        int k = n - 1;
        while (k >= 0 && ++d[k] > (n == 1 ? 5 : 3)) d[k--] = 1;
        if (k < 0) break;
      }
    }
  return runPool(o, all.size(), [&](uint64_t c) {
    const TreP &t = all[c];
    std::string text = treStr(t);
    phase(text);
    std::stringstream ss;
    for (char x : text) ss.put(x);
    TREDriver drv;
    if (!drv.parse(ss)) { fail(c, "parse", text, "rejected"); return; }
    TimedAutomaton R;
    try { toSignalTA(drv.getResult(), R); } catch (const char *e) { fail(c, "throws", text, e); return; } catch (const std::exception &e) { fail(c, "throws", text, e.what()); return; }
    bool any = false;
    const bool few = slow(t);
    size_t n = 0;
    for (auto &w : logs) {
      if (few && n++ % 12 != 3) continue;
      std::vector<char> cs;
      std::vector<int> end;
      for (auto &e : w) { cs.push_back(e.a); end.push_back(Q * e.t); }
      Rows r;
      denote(t, cs, end, Q, r);
      PairSet want, got;
      const int g = Q / 4;
      for (int x = 0; x < end.back(); x += g) for (int y = x + g; y <= end.back(); y += g) if (r[x] >> y & 1) want.push_back(code(x / g, y / g));
      normalise(want);
      phase(text + " on " + wordStr(w));
      int rc = implMatch(R, w, SIGNAL, 2, got);
      count(STATES, r.size()); count(TRANSITIONS, w.size()); count(TRACES); count(EVALS); count(MATCHES, want.size());
      any |= !want.empty();
      if (rc == 10 && want.empty()) { count(AUX1); continue; }
      if (rc) { fail(c, "exit", text + " on " + wordStr(w), "the library exited with " + std::to_string(rc)); return; }
      if (want != got) { fail(c, "mismatch", text + " on " + wordStr(w), pairDiff(want, got)); return; }
    }
    if (getenv("VP_TIMES")) fprintf(stderr, "%f %s\n", (double)clock() / CLOCKS_PER_SEC, text.c_str());
    if (any) count(NONTRIVIAL);
    if (c % 1499 == 0) sample(text + " on " + std::to_string(logs.size()) + " logs");
  }, [&](uint64_t c) { return treStr(all[c]); });
}
