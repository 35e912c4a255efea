// Expressions over signals: the automaton that toSignalTA builds for an
// expression accepts exactly the signals of the expression's denotation, for
// every expression up to a size and every stutter-free signal in the bounds.
#include "pool.hh"
#include "sig.hh"
#include "monaa/tre_driver.hh"
#include "monaa/intermediate_tre.hh"
#include "fromrepo.hh"
#include <sstream>
using namespace vp;
static const int Q = 12; // grid steps per unit; signals change at multiples of 4
struct Sig { std::vector<char> c; std::vector<int> d; }; // letters, durations in halves
static std::string sigStr(const Sig &s) {
  std::string r;
  for (size_t i = 0; i < s.c.size(); i++) { char b[16]; snprintf(b, sizeof b, "%c^%g ", s.c[i], s.d[i] / 2.0); r += b; }
  return r;
}
struct C { BigCfg c; int last; bool operator<(const C &o) const { return c == o.c ? last < o.last : c < o.c; } };
static bool accepts(const TA &A, const Sig &s, const std::vector<int> &end) {
  std::vector<C> cur;
  for (int i : A.init) cur.push_back({{i, std::vector<int>(A.clocks, 0)}, 0});
  auto ok = [](const BigCfg &c, int u, const std::vector<G> &g) {
    for (auto &k : g) {
      int v = u - c.rt[k.x], b = Q * k.c;
      if (!(k.op == LT ? v < b : k.op == LE ? v <= b : k.op == GT ? v > b : v >= b)) return false;
    }
    return true;
  };
  auto close = [&](int hi) {
    std::set<C> all(cur.begin(), cur.end());
    std::vector<C> todo(all.begin(), all.end());
    while (!todo.empty()) {
      C c = todo.back();
      todo.pop_back();
      for (auto &e : A.e)
        if (e.a == 0 && e.s == c.c.s)
          for (int u = c.last; u <= hi; u++)
            if (ok(c.c, u, e.g)) {
              C d = c;
              d.c.s = e.d; d.last = u;
              for (int x : e.r) d.c.rt[x] = u;
              if (all.insert(d).second) todo.push_back(d);
            }
    }
    cur.assign(all.begin(), all.end());
  };
  for (size_t i = 0; i < end.size(); i++) {
    close(end[i]);
    std::set<C> nx;
    for (auto &c : cur)
      for (auto &e : A.e)
        if (e.a == s.c[i] && e.s == c.c.s && ok(c.c, end[i], e.g)) {
          C d = c;
          d.c.s = e.d; d.last = end[i];
          for (int x : e.r) d.c.rt[x] = end[i];
          nx.insert(d);
        }
    cur.assign(nx.begin(), nx.end());
  }
  for (auto &c : cur) if (A.acc[c.c.s]) return true;
  return false;
}
static std::vector<TreP> all;
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  static const std::vector<Iv> ivs = {{1, true, 2, true, "[1,2]"}, {0, true, 1, false, "<1"}, {1, false, -1, false, ">1"}, {1, false, 3, false, "(1,3)"}, {1, false, 2, false, "(1,2)"}, {1, true, 1, true, "=1"}};
  auto add = [&](const char *letters, size_t nIv, int from, int to) {
    static std::vector<std::shared_ptr<TreGen>> keep;
    auto p = std::make_shared<TreGen>();
    p->letters = letters;
    p->ivs.assign(ivs.begin(), ivs.begin() + nIv);
    p->build(to);
    keep.push_back(p);
    for (int k = from; k <= to; k++) all.insert(all.end(), p->by[k].begin(), p->by[k].end());
  };
  // the repetitions of the last two intervals are known to be wrong (known_findings.txt)
  add("ab", ivs.size(), 0, 2);
  add("ab", th ? 4 : 3, 3, 3);
  if (th) { add("ab", 2, 4, 4); }
  std::vector<Sig> sigs;
  for (int n = 1; n <= 3; n++)
    for (int first = 0; first < 2; first++) {
      std::vector<int> d(n, 1);
      int mx = n == 1 ? 9 : 5;
      for (;;) {
        Sig s;
        for (int i = 0; i < n; i++) { s.c.push_back((first + i) % 2 ? 'b' : 'a'); s.d.push_back(d[i]); }
        sigs.push_back(s);
        int p = n - 1;
        while (p >= 0 && ++d[p] > mx) d[p--] = 1;
        if (p < 0) break;
      }
    }
  return runPool(o, all.size(), [&](uint64_t c) {
    const TreP &t = all[c];
    std::string text = treStr(t);
    phase(text);
    std::stringstream ss(text);
    TREDriver drv;
    if (!drv.parse(ss)) { fail(c, "parse", text, "rejected"); return; }
    TimedAutomaton R;
    try { toSignalTA(drv.getResult(), R); } catch (const char *e) { fail(c, "throws", text, e); return; } catch (const std::exception &e) { fail(c, "throws", text, e.what()); return; }
    std::string err;
    TA A = fromRepo(R, err, false);
    if (!err.empty()) { fail(c, "malformed", text, err); return; }
    bool any = false;
    for (auto &s : sigs) {
      std::vector<int> end;
      int p = 0;
      for (int d : s.d) end.push_back(p += d * (Q / 2));
      if (p > 127) continue;
      Rows r;
      denote(t, s.c, end, Q, r);
      bool want = r[0] >> p & 1, got = accepts(A, s, end);
      count(STATES); count(TRACES);
      any |= want;
      if (want) count(MATCHES);
      if (want != got) { fail(c, want ? "rejects" : "accepts", text, "on " + sigStr(s) + " automaton " + A.str()); return; }
    }
    count(EVALS);
    if (any) count(NONTRIVIAL);
  }, [&](uint64_t c) { return treStr(all[c]); });
}
