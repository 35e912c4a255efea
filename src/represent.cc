// One pattern, many representations: every variant of a pattern in the list below
// must give the same set of (t,t') on a log containing every window.
#include "match_families.hh"
#include "impl.hh"
#include <numeric>
using namespace vp;
static Mode mode = DOLLAR;
struct Var { std::string name; TA A; std::vector<int> alloc; int scale = 1, shift = 0; };
static TimedAutomaton build(const Var &v) {
  const TA &A = v.A;
  TimedAutomaton R;
  std::vector<std::shared_ptr<TAState>> st(A.n);
  std::vector<int> order = v.alloc;
  if (order.empty()) { order.resize(A.n); std::iota(order.begin(), order.end(), 0); }
  for (int i : order) st[i] = std::make_shared<TAState>(A.acc[i] != 0);
  for (auto &k : A.e) {
    TATransition t;
    t.target = st[k.d].get();
    for (int x : k.r) t.resetVars.push_back((ClockVariables)x);
    for (auto &g : k.g) t.guard.push_back(Constraint{(ClockVariables)g.x, g.op == LT ? Constraint::Order::lt : g.op == LE ? Constraint::Order::le : g.op == GT ? Constraint::Order::gt : Constraint::Order::ge, g.c});
    st[k.s]->next[k.a].push_back(t);
  }
  R.states = st;
  for (int i : A.init) R.initialStates.push_back(st[i]);
  R.maxConstraints.assign(A.clocks, 0);
  for (auto &k : A.e) for (auto &g : k.g) R.maxConstraints[g.x] = std::max(R.maxConstraints[g.x], g.c);
  return R;
}
static TA renumber(const TA &A, const std::vector<int> &to) { // state i becomes to[i]
  TA B = A;
  for (int i = 0; i < A.n; i++) B.acc[to[i]] = A.acc[i];
  for (auto &i : B.init) i = to[i];
  for (auto &e : B.e) { e.s = to[e.s]; e.d = to[e.d]; }
  return B;
}
static TA renameClocks(const TA &A, const std::vector<int> &to, int clocks) {
  TA B = A;
  B.clocks = clocks;
  for (auto &e : B.e) { for (auto &g : e.g) g.x = to[g.x]; for (auto &x : e.r) x = to[x]; }
  return B;
}
static TA addState(const TA &A, bool acc) { TA B = A; B.n++; B.acc.push_back(acc); return B; }
static TA duplicate(const TA &A, int s) { // a copy of state s, with all its transitions
  TA B = addState(A, A.acc[s]);
  int c = A.n;
  for (int i : A.init) if (i == s) { B.init.push_back(c); break; }
  for (auto e : A.e) {
    bool out = e.s == s, in = e.d == s;
    if (out) { auto k = e; k.s = c; B.e.push_back(k); }
    if (in) { auto k = e; k.d = c; B.e.push_back(k); }
    if (in && out) { auto k = e; k.s = k.d = c; B.e.push_back(k); }
  }
  return B;
}
static std::vector<Var> variants(const TA &A, bool th) {
  std::vector<Var> v;
  std::vector<int> id(A.n);
  std::iota(id.begin(), id.end(), 0);
  auto add = [&](const std::string &n, const TA &B) { Var x; x.name = n; x.A = B; v.push_back(x); };
  // order of the states, of their addresses
  std::vector<std::vector<int>> perms;
  std::vector<int> p = id;
  if (A.n <= 3 || (th && A.n <= 4)) while (std::next_permutation(p.begin(), p.end())) perms.push_back(p);
  else {
    p.assign(id.rbegin(), id.rend()); perms.push_back(p);
    for (int k = 1; k < A.n; k++) { p = id; std::rotate(p.begin(), p.begin() + k, p.end()); perms.push_back(p); }
  }
  for (auto &q : perms) {
    add("states reordered", renumber(A, q));
    Var x;
    x.name = "allocated in another order"; x.A = A; x.alloc = q;
    v.push_back(x);
    if (&q == &perms[0]) { x.name = "states reordered, allocated in the old order"; x.A = renumber(A, q); v.push_back(x); }
  }
  if (A.init.size() > 1) { TA B = A; std::reverse(B.init.begin(), B.init.end()); add("initial states reordered", B); }
  if (A.init.size() > 1) { TA B = A; std::reverse(B.init.begin(), B.init.end()); p.assign(id.rbegin(), id.rend()); Var x; x.name = "initial states and addresses reordered"; x.A = B; x.alloc = p; v.push_back(x); }
  { TA B = A; std::reverse(B.e.begin(), B.e.end()); add("transitions reordered", B); }
  { TA B = A; for (auto &e : B.e) { std::reverse(e.g.begin(), e.g.end()); std::reverse(e.r.begin(), e.r.end()); } add("guards and resets reordered", B); }
  // clocks
  if (A.clocks == 2) add("clocks exchanged", renameClocks(A, {1, 0}, 2));
  { std::vector<int> to; for (int x = 0; x < A.clocks; x++) to.push_back(2 * x + 2); add("unused clocks", renameClocks(A, to, 2 * A.clocks + 3)); }
  { TA B = A; B.clocks++; for (auto &e : B.e) e.r.push_back(A.clocks); add("a clock that is only reset", B); }
  { TA B = A; for (auto &e : B.e) { auto g = e.g, r = std::vector<G>(); for (auto &k : g) { e.g.push_back(k); } auto q = e.r; e.r.insert(e.r.end(), q.begin(), q.end()); } add("guards and resets repeated", B); }
  { TA B = A; B.clocks++; for (auto &e : B.e) e.g.push_back({A.clocks, GT, 0}); add("a clock whose guard always holds", B); }
  // useless states
  { TA B = addState(A, false); for (auto &i : A.init) B.e.push_back({A.n, 'a', i, {}, {}}); B.e.push_back({A.n, 'b', A.n, {}, {}}); add("an unreachable state", B); }
  { TA B = addState(A, true); B.e.push_back({A.n, '$', A.n, {}, {}}); B.e.push_back({A.n, 'a', A.n, {}, {}}); add("an unreachable accepting state", B); }
  {
    TA B = addState(A, false);
    for (int i = 0; i < A.n; i++) for (char a : std::string("ab")) B.e.push_back({i, a, A.n, {}, {}});
    B.e.push_back({A.n, 'a', A.n, {}, {}}); B.e.push_back({A.n, 'b', A.n, {}, {}});
    add("a dead state reachable from everywhere", B);
    std::rotate(B.e.begin(), B.e.begin() + A.e.size(), B.e.end());
    std::vector<int> to(B.n);
    for (int i = 0; i < B.n; i++) to[i] = (i + 1) % B.n;
    add("a dead state in front", renumber(B, to));
  }
  { TA B = addState(A, false); B.init.insert(B.init.begin(), A.n); B.e.push_back({A.n, 'a', A.n, {}, {}}); add("a dead initial state", B); }
  { TA B = addState(A, true); for (auto &e : A.e) { B.e.push_back(e); B.e.back().d = A.n; B.e.back().g.push_back({0, LT, 0}); } if (A.clocks) add("transitions that are never enabled", B); }
  // copies
  for (int s = 0; s < A.n; s++) if (s == 0 || th || s + 1 == A.n) add("a state duplicated", duplicate(A, s));
  { TA B = A; B.e.insert(B.e.end(), A.e.begin(), A.e.end()); add("transitions duplicated", B); }
  {
    TA B = A; // two copies side by side
    B.n = 2 * A.n;
    B.acc.insert(B.acc.end(), A.acc.begin(), A.acc.end());
    for (int i : A.init) B.init.push_back(i + A.n);
    for (auto e : A.e) { e.s += A.n; e.d += A.n; B.e.push_back(e); }
    add("the pattern united with itself", B);
  }
  // time
  for (int k : {2, 3}) { Var x; x.name = "times " + std::to_string(k); x.A = A; x.scale = k; for (auto &e : x.A.e) for (auto &g : e.g) g.c *= k; v.push_back(x); }
  for (int k : {1, 7, 1 << 20}) { Var x; x.name = "later by " + std::to_string(k); x.A = A; x.shift = k; v.push_back(x); }
  return v;
}
static int run(const Var &v, const Word &w, int tail, PairSet &out) {
  static AnsVec<Zone> *ans;
  ans = new AnsVec<Zone>;
  TimedAutomaton R = build(v);
  Word u = w;
  for (auto &e : u) e.t = e.t * v.scale + v.shift;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) { vpExitArmed = 0; return vpExitCode ? vpExitCode : -1; }
  {
    MemWord mw(u);
    if (mode == DOLLAR) monaaDollar(mw, R, *ans);
    else if (mode == NOT_NEC) monaaNotNecessaryDollar(mw, R, *ans);
    else monaa(mw, R, *ans);
  }
  vpExitArmed = 0;
  int tailQ = 4 * ((w.empty() ? 0 : w.back().t) + tail);
  for (auto &z : *ans) { // back to the time of the log
    Zone y = z;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (i != j) {
          double b = y.value(i, j).first;
          if (std::abs(b) > 1e8) continue;
          if (v.shift && i == 0) b += v.shift;
          if (v.shift && j == 0) b -= v.shift;
          y.value(i, j).first = b / v.scale;
        }
    rasterise(y, tailQ, out);
  }
  normalise(out);
  delete ans;
  return 0;
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  for (auto &a : o.rest) {
    if (a == "signal") mode = SIGNAL;
    if (a == "notnec") mode = NOT_NEC;
  }
  bool th = o.tier == "thorough";
  auto fs = smallFamilies(mode);
  if (mode == SIGNAL) { // and with unobservable transitions
    std::string ae("a\0", 2), abe("ab\0", 3);
    std::vector<Guard> open = {{}, {{0, LT, 2}}, {{0, GT, 2}}};
    fs.push_back(finalLetter(chain1(1, open, open, std::string("\0", 1)), "ab"));
    fs.push_back(finalLetter(chain1(2, open, open, abe), "a"));
    fs.push_back(finalLetter(chain2(2, {{}, {{0, LT, 2}}, {{1, GT, 2}}}, {{}, {{1, GT, 2}}}, {std::string("\0a", 2), std::string("a\0", 2)}), "a"));
  }
  struct Item { int f; uint64_t off; };
  std::vector<Item> items;
  for (size_t f = 0; f < fs.size(); f++) {
    uint64_t step = std::max<uint64_t>(1, fs[f].size / (th ? 1500 : 100)) | 1, n = 0;
    for (uint64_t i = 0; i < fs[f].size; i += step, n++) items.push_back({(int)f, i});
    if (o.only < 0) printf("%s %llu of %llu\n", fs[f].name.c_str(), (unsigned long long)n, (unsigned long long)fs[f].size);
  }
  Alpha al{"ab", {1, 3}};
  std::map<int, Word> logs;
  for (int k = 1; k <= 4; k++) logs[k] = mkWord(al, deBruijn(al.size(), std::min(k, 3)));
  return runPool(o, items.size(), [&](uint64_t c) {
    Var base;
    base.A = fs[items[c].f].make(items[c].off);
    const TA &A = base.A;
    int tail = A.maxConst() + 2;
    bool eps = false;
    for (auto &e : A.e) eps = eps || e.a == 0;
    static const std::vector<Word> shorts = {{}, {{'a', 2}}, {{'b', 1}, {'a', 2}}, {{'a', 1}, {'b', 4}}};
    for (const Word &w : {logs[std::max(2, fs[items[c].f].window)], shorts[c % 4]}) {
      PairSet want;
      phase("as given");
      int rc0 = run(base, w, tail, want);
      count(STATES, w.size());
      if (!want.empty()) count(NONTRIVIAL);
      for (auto &v : variants(A, th)) {
        if (eps && v.shift > 100) continue;
        if (w.size() < 3 && !th && v.scale == 1 && !v.shift && v.A.n == A.n && v.name[0] == 's') continue;
        PairSet got;
        phase(v.name + " " + v.A.str());
        int rc = run(v, w, tail, got);
        count(TRACES); count(EVALS); count(TRANSITIONS, w.size()); count(MATCHES, want.size());
        std::string in = A.str() + " / " + v.name + " on " + (w.size() < 5 ? wordStr(w) : "every window");
        if (rc != rc0 && !(rc0 == 10 && got.empty()) && !(rc == 10 && want.empty())) { fail(c, "exit", in, "stops with " + std::to_string(rc) + " instead of " + std::to_string(rc0)); return; }
        if (want != got) { fail(c, "representation", in, v.A.str() + " gives other matches than " + A.str() + ": " + pairDiff(want, got)); return; }
      }
    }
    if (c % 300 == 0) sample(A.str());
  }, [&](uint64_t c) { return fs[items[c].f].make(items[c].off).str(); });
}
