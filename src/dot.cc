// Reading DOT automata: every small automaton in every rendering of a set is read
// as itself; every text of bounded length in the place of a guard, a reset list, a
// label or a flag is read as what it says or rejected; every truncation of a
// document is rejected.
#include "pool.hh"
#include "fromrepo.hh"
#include "monaa/timed_automaton_parser.hh"
#include <sstream>
using namespace vp;
// 1 read, 0 rejected
static int readDot(const std::string &text, TA &out, std::string &err, std::vector<int> *maxc = nullptr) {
  static std::stringstream *ss; // not on the stack: a rejected text may come back by longjmp
  ss = new std::stringstream(text);
  static TimedAutomaton *R;
  R = new TimedAutomaton;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) { vpExitArmed = 0; err = vpExitCode == 2 ? "" : "exit " + std::to_string(vpExitCode); return 0; }
  int rc = 1;
  try {
    BoostTimedAutomaton B;
    parseBoostTA(*ss, B);
    convBoostTA(B, *R);
  } catch (const std::exception &) { rc = 0; }
  vpExitArmed = 0;
  if (rc) {
    out = fromRepo(*R, err);
    if (maxc) *maxc = std::vector<int>(R->maxConstraints.begin(), R->maxConstraints.end());
  }
  delete R;
  delete ss;
  return rc;
}
static std::string canon(const TA &A, const std::vector<int> &perm) { // perm[i]: new number of state i
  std::vector<std::string> v;
  for (int i = 0; i < A.n; i++) {
    bool in = std::find(A.init.begin(), A.init.end(), i) != A.init.end();
    v.push_back("s" + std::to_string(perm[i]) + (in ? "i" : "") + (A.acc[i] ? "m" : ""));
  }
  for (auto &e : A.e) {
    std::string s = "t" + std::to_string(perm[e.s]) + " " + std::to_string((int)e.a) + " " + std::to_string(perm[e.d]);
    for (auto &g : e.g) s += " x" + std::to_string(g.x) + opName[g.op] + std::to_string(g.c);
    s += " r";
    for (int x : e.r) s += " " + std::to_string(x);
    v.push_back(s);
  }
  std::sort(v.begin(), v.end());
  std::string r = "clocks " + std::to_string(A.clocks);
  for (auto &s : v) r += "; " + s;
  return r;
}
static std::string canonMin(const TA &A) {
  std::vector<int> p(A.n);
  for (int i = 0; i < A.n; i++) p[i] = i;
  std::string best;
  do { std::string s = canon(A, p); if (best.empty() || s < best) best = s; } while (std::next_permutation(p.begin(), p.end()));
  return best;
}
// --- automata: every edge list of length <= k over small choices
static std::vector<TA> autos;
static void mkAutos(bool th) {
  std::vector<std::vector<G>> gs = {{}, {{0, LT, 1}}, {{1, GE, 20}}, {{0, GT, 1}, {0, LE, 3}}, {{2, LE, 0}, {1, LT, 2}, {0, GE, 0}}};
  std::vector<std::vector<int>> rs = {{}, {0}, {2, 1}, {11, 0, 3}};
  std::vector<E> edges;
  for (int s = 0; s < 2; s++) for (int d = 0; d < 2; d++) for (char a : std::string("a$")) for (auto &g : gs) for (auto &r : rs) {
    if (!th && (s + d + a + g.size() + r.size()) % 2) continue;
    edges.push_back({s, a, d, g, r});
  }
  for (int n = 1; n <= 2; n++)
    for (int flags = 0; flags < (1 << (2 * n)); flags++) {
      TA A;
      A.n = n;
      for (int i = 0; i < n; i++) { A.acc.push_back(flags >> (2 * i) & 1); if (flags >> (2 * i + 1) & 1) A.init.push_back(i); }
      autos.push_back(A);
      for (size_t i = 0; i < edges.size(); i++) {
        if (edges[i].s >= n || edges[i].d >= n) continue;
        TA B = A;
        B.e.push_back(edges[i]);
        autos.push_back(B);
        if (n == 2 && flags == 6) for (size_t j = 0; j < edges.size(); j += th ? 3 : 7) { TA C = B; C.e.push_back(edges[j]); autos.push_back(C); }
      }
    }
  for (auto &A : autos) {
    for (auto &e : A.e) { for (auto &g : e.g) A.clocks = std::max(A.clocks, g.x + 1); for (int x : e.r) A.clocks = std::max(A.clocks, x + 1); }
  }
}
struct Style { int sep, order, quote, names, stmt, extra, omit; };
static std::vector<Style> styles;
static std::string render(const TA &A, const Style &y) {
  auto q = [&](const std::string &v, bool must = false) { return must || y.quote ? "\"" + v + "\"" : v; };
  auto name = [&](int i) -> std::string {
    static const char *nm[4][3] = {{"loc1", "loc2", "loc3"}, {"1", "2", "30"}, {"\"a b\"", "\"{x0 < 1}\"", "\"1->2\""}, {"z", "_y", "A1"}};
    return nm[y.names][i];
  };
  auto attrs = [&](std::vector<std::string> v) {
    if (y.extra == 1) v.push_back("color=" + q("red"));
    if (y.order == 1) std::reverse(v.begin(), v.end());
    else if (y.order > 1 && v.size() > 1) std::rotate(v.begin(), v.begin() + (y.order - 1) % v.size(), v.end());
    if (v.empty()) return std::string();
    static const char *seps[] = {", ", "][", ";", ",", " ] [ "};
    std::string s = " [";
    for (size_t i = 0; i < v.size(); i++) s += (i ? seps[y.sep] : "") + v[i];
    return s + "]";
  };
  std::vector<std::string> st;
  for (int i = 0; i < A.n; i++) {
    std::vector<std::string> v;
    bool in = std::find(A.init.begin(), A.init.end(), i) != A.init.end();
    if (!y.omit || in) v.push_back("init=" + q(in ? "1" : "0"));
    if (!y.omit || A.acc[i]) v.push_back("match=" + q(A.acc[i] ? "1" : "0"));
    st.push_back(name(i) + attrs(v));
  }
  for (auto &e : A.e) {
    std::vector<std::string> v = {"label=" + q(std::string(1, e.a), e.a == '$')};
    auto list = [](const std::vector<std::string> &l) { std::string s = "\"{"; for (size_t i = 0; i < l.size(); i++) s += (i ? ", " : "") + l[i]; return s + "}\""; };
    std::vector<std::string> l;
    for (auto &g : e.g) l.push_back("x" + std::to_string(g.x) + " " + opName[g.op] + " " + std::to_string(g.c));
    if (!l.empty()) v.push_back("guard=" + list(l));
    l.clear();
    for (int x : e.r) l.push_back(std::to_string(x));
    if (!l.empty()) v.push_back("reset=" + list(l));
    st.push_back(name(e.s) + (y.sep % 2 ? " -> " : "->") + name(e.d) + attrs(v));
  }
  if (y.stmt == 1) std::reverse(st.begin(), st.end());
  if (y.stmt >= 2) std::rotate(st.begin(), st.begin() + (y.stmt - 1) % st.size(), st.end());
  std::string s = y.extra == 2 ? "/* a pattern */ digraph \"G 1\" {\n rankdir=LR;\n node [shape=box];\n // edges\n" : y.extra == 1 ? "digraph G{" : "digraph G {\n";
  for (auto &x : st) s += "  " + x + (y.extra == 1 ? ";" : y.extra == 2 ? ";\n" : "\n");
  return s + "}\n";
}
// --- lists as texts: what a list of constraints or numbers says, blanks being optional
struct Txt {
  const std::string &s;
  size_t p = 0;
  explicit Txt(const std::string &s) : s(s) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; }
  bool ch(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; }
  bool num(long &v) {
    ws();
    bool neg = false;
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-';
    if (p >= s.size() || !isdigit((unsigned char)s[p])) return false;
    v = 0;
    while (p < s.size() && isdigit((unsigned char)s[p])) { v = std::min(v * 10 + (s[p++] - '0'), 100000000000L); }
    if (neg) v = -v;
    return true;
  }
};
static bool sayGuard(const std::string &t, std::vector<G> &g) {
  Txt x(t);
  if (t.empty()) return true; // an absent value
  if (!x.ch('{')) return false;
  if (x.ch('}')) { x.ws(); return x.p == t.size(); }
  do {
    long n, c;
    if (!x.ch('x') || !x.num(n) || n < 0 || n > 255) return false;
    Op o;
    if (x.ch('<')) o = LT; else if (x.ch('>')) o = GT; else return false;
    if (x.p < t.size() && t[x.p] == '=') { x.p++; o = o == LT ? LE : GE; }
    if (!x.num(c) || c > 2147483647L || c < -2147483648L) return false;
    g.push_back({(int)n, o, (int)c});
  } while (x.ch(','));
  if (!x.ch('}')) return false;
  x.ws();
  return x.p == t.size();
}
static bool sayReset(const std::string &t, std::vector<int> &r) {
  Txt x(t);
  if (t.empty()) return true; // an absent value
  if (!x.ch('{')) return false;
  if (x.ch('}')) { x.ws(); return x.p == t.size(); }
  do { long n; if (!x.num(n) || n < 0 || n > 255) return false; r.push_back((int)n); } while (x.ch(','));
  if (!x.ch('}')) return false;
  x.ws();
  return x.p == t.size();
}
static std::string exactGuard(const std::vector<G> &g) { std::string s = "{"; for (size_t i = 0; i < g.size(); i++) s += (i ? ", x" : "x") + std::to_string(g[i].x) + " " + opName[g[i].op] + " " + std::to_string(g[i].c); return s + "}"; }
static std::string exactReset(const std::vector<int> &r) { std::string s = "{"; for (size_t i = 0; i < r.size(); i++) s += (i ? ", " : "") + std::to_string(r[i]); return s + "}"; }
enum Kind { GUARD, RESET, LABEL, FLAG };
static const char *kindName[] = {"guard", "reset", "label", "init"};
static void text(uint64_t c, Kind k, const std::string &t) {
  std::string doc = "digraph G {\n 1 [init=" + (k == FLAG ? "\"" + t + "\"" : "1") + ", match=0]\n 2 [init=0, match=1]\n 1->2 [label=\"" + (k == LABEL ? t : "a") + "\"";
  if (k == GUARD || k == RESET) doc += std::string(", ") + kindName[k] + "=\"" + t + "\"";
  doc += "]\n}\n";
  std::vector<G> g;
  std::vector<int> r;
  bool says = false, must = false;
  TA W;
  W.n = 2; W.acc = {0, 1}; W.init = {0};
  W.e = {{0, 'a', 1, {}, {}}};
  if (k == GUARD) { says = sayGuard(t, g); must = says && !g.empty() && exactGuard(g) == t; for (auto &x : g) must = must && x.c >= 0; W.e[0].g = g; }
  else if (k == RESET) { says = sayReset(t, r); must = says && !r.empty() && exactReset(r) == t; W.e[0].r = r; std::sort(W.e[0].r.begin(), W.e[0].r.end()); W.e[0].r.erase(std::unique(W.e[0].r.begin(), W.e[0].r.end()), W.e[0].r.end()); }
  else if (k == LABEL) { says = t.size() == 1 && t[0] > 0; must = says && (isalpha((unsigned char)t[0]) || t[0] == '$'); if (says) W.e[0].a = t[0]; }
  else {
    long v;
    Txt x(t);
    must = t == "0" || t == "1";
    says = !t.empty() && x.num(v) && x.p == t.size() && (v == 0 || v == 1);
    if (says && v == 0) W.init.clear();
    if (t.empty()) { says = true; W.init.clear(); } // an absent value
  }
  for (auto &x : W.e[0].g) W.clocks = std::max(W.clocks, x.x + 1);
  for (int x : W.e[0].r) W.clocks = std::max(W.clocks, x + 1);
  TA got;
  std::string err;
  std::vector<int> mc;
  int rc = readDot(doc, got, err, &mc);
  count(STATES); count(TRACES); count(EVALS); count(TRANSITIONS, t.size());
  if (says) count(NONTRIVIAL);
  std::string in = std::string(kindName[k]) + "=\"" + t + "\"";
  if (!err.empty()) { fail(c, "malformed", in, err); return; }
  if (!rc) { if (must) fail(c, "rejected", in, "well-formed but rejected"); return; }
  if (!says) { fail(c, "accepted", in, "accepted, as " + got.str()); return; }
  if (canon(got, {0, 1}) != canon(W, {0, 1})) { fail(c, "misread", in, "read as " + canon(got, {0, 1}) + " instead of " + canon(W, {0, 1})); return; }
  for (auto &x : W.e[0].g) {
    int m = 0;
    for (auto &z : W.e[0].g) if (z.x == x.x) m = std::max(m, z.c);
    if ((int)mc.size() <= x.x || mc[x.x] != m) { fail(c, "maximum", in, "maximal constant of x" + std::to_string(x.x) + " is not " + std::to_string(m)); return; }
  }
}
struct Space { Kind k; std::string pre; std::vector<std::string> toks; std::string post; int len; };
static std::vector<Space> spaces;
static std::vector<std::array<int, 3>> chunks;
static const std::string docs[] = {
    "digraph G {\n loc1 [init=1, match=0]\n loc2 [init=0, match=1]\n loc1->loc2 [label=\"a\", guard=\"{x0 < 1, x1 >= 2}\", reset=\"{0, 1}\"]\n loc2->loc2 [label=\"$\"]\n}",
    "digraph G{1 [init=1][match=0];2 [match=1];1->2 [label=\"$\"][guard=\"{x0 < 1}\"];}"};

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  mkAutos(th);
  for (int sep = 0; sep < 5; sep++) for (int order = 0; order < 3; order++) for (int quote = 0; quote < 2; quote++) for (int names = 0; names < 4; names++)
    for (int stmt = 0; stmt < 4; stmt++) for (int extra = 0; extra < 3; extra++) for (int omit = 0; omit < 2; omit++) styles.push_back({sep, order, quote, names, stmt, extra, omit});
  auto chars = [](const char *s) { std::vector<std::string> v; for (; *s; s++) v.push_back(std::string(1, *s)); return v; };
  int d = th ? 1 : 0;
  spaces.push_back({GUARD, "{x0", chars("x01 <>=,}"), "}", 5 + d});
  spaces.push_back({GUARD, "", {"{", "}", "x", "1", " ", "<", "=", ", "}, "", 6 + d});
  spaces.push_back({GUARD, "{x0 <= 2", chars("x01 <>=,}"), "x1 > 1}", 4 + d});
  spaces.push_back({GUARD, "{", {"x0 < 1", "x1 >= 20", "x10 <= 3", "x255 > 0", "x256 < 1", "x-1 < 1", ", ", ",", " ", "x0 = 1", "x0 == 1", "x0 < 1.5", "x0 <= 2147483647", "x0 > 2147483648", "y0 < 1", "X0 < 1", "x < 1", "x0 < -1", "x0 < ", "1 < x0"}, "}", 3 + d});
  spaces.push_back({RESET, "{", chars("01 ,-x}"), "}", 4 + d});
  spaces.push_back({RESET, "", {"{", "}", "1", "255", "256", ", ", ","}, "", 4 + d});
  spaces.push_back({LABEL, "", chars("a$1 -\\'0b{"), "", 3});
  spaces.push_back({FLAG, "", {"0", "1", "2", "true", " ", "-", "+", "a"}, "", 3});
  for (size_t i = 0; i < spaces.size(); i++) for (size_t a = 0; a < spaces[i].toks.size(); a++) for (size_t b = 0; b < spaces[i].toks.size(); b++) chunks.push_back({(int)i, (int)a, (int)b});
  if (o.only < 0) printf("automata %zu, styles %zu, text chunks %zu\n", autos.size(), styles.size(), chunks.size());
  const uint64_t nA = autos.size(), nC = chunks.size();
  return runPool(o, nA + nC + 3, [&](uint64_t c) {
    if (c < nA) {
      const TA &A = autos[c];
      TA W = A;
      for (auto &e : W.e) { std::sort(e.r.begin(), e.r.end()); }
      std::string want = canonMin(W);
      // the full product of styles for every 97th automaton, otherwise a fixed orthogonal part of it
      for (size_t s = 0; s < styles.size(); s++) {
        if (!(c % (th ? 23 : 97) == 0) && (s * 7 + c) % (th ? 11 : 37)) continue;
        std::string doc = render(A, styles[s]);
        phase(doc);
        TA got;
        std::string err;
        std::vector<int> mc;
        int rc = readDot(doc, got, err, &mc);
        count(STATES); count(TRANSITIONS, A.e.size()); count(TRACES); count(EVALS);
        if (!A.e.empty()) count(NONTRIVIAL);
        if (!err.empty()) { fail(c, "malformed", doc, err); break; }
        if (!rc) { fail(c, "rejected", doc, "well-formed but rejected"); break; }
        std::string g = got.n == A.n ? canonMin(got) : "a different number of states";
        if (g != want) { fail(c, "misread", doc, "read as " + g + " instead of " + want); break; }
        for (int x = 0; x < A.clocks; x++) {
          int m = 0;
          for (auto &e : A.e) for (auto &z : e.g) if (z.x == x) m = std::max(m, z.c);
          if (mc[x] != m) { fail(c, "maximum", doc, "maximal constant of x" + std::to_string(x) + " is " + std::to_string(mc[x]) + " instead of " + std::to_string(m)); break; }
        }
      }
      if (c % 400 == 0) sample(render(A, styles[c % styles.size()]));
      return;
    }
    uint64_t id = c;
    c -= nA;
    if (c < nC) {
      auto &k = chunks[c];
      auto &sp = spaces[k[0]];
      if (k[2] == 0) { text(id, sp.k, sp.pre + sp.toks[k[1]] + sp.post); if (k[1] == 0) text(id, sp.k, sp.pre + sp.post); }
      std::function<void(const std::string &, int)> rec = [&](const std::string &t, int len) {
        phase(t);
        text(id, sp.k, t + sp.post);
        if (len < sp.len) for (auto &x : sp.toks) rec(t + x, len + 1);
      };
      rec(sp.pre + sp.toks[k[1]] + sp.toks[k[2]], 2);
      return;
    }
    c -= nC;
    if (c < 2) { // truncations: the closing brace is missing
      const std::string &doc = docs[c];
      for (size_t cut = 0; cut < doc.size(); cut++) {
        TA got;
        std::string err;
        phase(doc.substr(0, cut));
        int rc = readDot(doc.substr(0, cut), got, err);
        count(STATES); count(TRACES); count(EVALS); count(TRANSITIONS);
        if (rc || !err.empty()) fail(id, "accepted", doc.substr(0, cut), "a truncated document was accepted");
      }
      return;
    }
    // documents that are not automata
    for (const char *t : {"graph G { 1 -- 2 }", "digraph G { 1 -> 2 }", "digraph G { 1 -> 2 [guard=\"{x0 < 1}\"] }", "{}", "1->2", "digraph G { 1 [init=] }", "digraph { 1 -> }", "digraph G { 1 [init=1 }",
                          "digraph G { 1 -> 2 [label=] }", "digraph G { 1 -> 2 [label=\"\"] }", "strict digraph G { 1 -> 2 [label=ab] }", "digraph G { 1 -> 2 [label=\"\x80\"] }", "digraph G { 1 -> 2 [label=\"\x7f\"] }", "digraph G { 1 -> 2 [label=a] 2 -> 1 [reset=\"{0}\"] }"}) {
      TA got;
      std::string err;
      phase(t);
      int rc = readDot(t, got, err);
      count(STATES); count(TRACES); count(EVALS); count(TRANSITIONS);
      if (rc || !err.empty()) fail(id, "accepted", t, "not an automaton, but read as " + got.str());
    }
  }, [&](uint64_t c) { return c < nA ? render(autos[c], styles[0]) : c < nA + nC ? std::string("texts for ") + kindName[spaces[chunks[c - nA][0]].k] : "documents " + std::to_string(c - nA - nC); });
}
