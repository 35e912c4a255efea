// The zone automaton of every automaton of the families: the real construction
// against the region semantics, by a simultaneous subset construction, so for
// untimed words of every length.
#include "families.hh"
#include "impl.hh"
#include "regions.hh"
#include "libmonaa/ta2za.hh"
#include <unordered_map>
using namespace vp;
using ZSet = std::vector<ZAState *>;
static ZSet zpost(const ZSet &in, char a) {
  ZSet r;
  for (auto s : in) for (auto &w : s->next[(int)a]) if (auto t = w.lock()) r.push_back(t.get());
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static ZSet zinit(const ZoneAutomaton &Z) {
  ZSet r;
  for (auto &s : Z.initialStates) r.push_back(s.get());
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
// two loops sharing two clocks: 0 -a-> 1 -b-> 0 / 1 -a-> 1, all guards and resets
static Family loops2(const std::vector<Guard> &gs) {
  Family f;
  f.name = "loops2";
  uint64_t per = gs.size() * 4;
  f.size = per * per * per;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A;
    A.n = 3; A.clocks = 2; A.init = {0}; A.acc = {0, 0, 1};
    struct { int s, d; char a; } sk[3] = {{0, 1, 'a'}, {1, 0, 'b'}, {1, 1, 'a'}};
    for (auto &k : sk) {
      E e; e.s = k.s; e.d = k.d; e.a = k.a;
      e.g = gs[r.take(gs.size())];
      int m = r.take(4);
      if (m & 1) e.r.push_back(0);
      if (m & 2) e.r.push_back(1);
      A.e.push_back(e);
    }
    A.e.push_back({1, '$', 2, {{0, GT, 1}, {1, LT, 2}}, {}});
    return A;
  };
  return f;
}
// one state, two self loops, three clocks
static Family loops3(const std::vector<Guard> &gs) {
  Family f;
  f.name = "loops3";
  uint64_t per = gs.size() * 8;
  f.size = per * per;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A;
    A.n = 2; A.clocks = 3; A.init = {0}; A.acc = {0, 1};
    for (char a : {'a', 'b'}) {
      E e; e.s = 0; e.d = 0; e.a = a;
      e.g = gs[r.take(gs.size())];
      int m = r.take(8);
      for (int x = 0; x < 3; x++) if (m >> x & 1) e.r.push_back(x);
      A.e.push_back(e);
    }
    A.e.push_back({0, '$', 1, {{0, GT, 1}, {1, LT, 2}, {2, GE, 1}}, {}});
    return A;
  };
  return f;
}

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  auto G12 = guards1(0, {1, 2});
  auto G123 = guards1(0, {1, 3});
  std::vector<Guard> few = {{}, {{0, LT, 1}}, {{0, GE, 2}}}, few5 = {{}, {{0, LT, 1}}, {{0, GT, 1}}, {{0, GE, 2}}, {{0, LE, 2}}};
  std::vector<Guard> two = {{}, {{0, LT, 1}}, {{0, GE, 1}}, {{1, LE, 2}}, {{1, GT, 2}}, {{0, LE, 1}, {1, GE, 2}}, {{0, GT, 1}, {1, LT, 2}}};
  std::vector<Guard> three = {{}, {{0, LT, 1}}, {{1, GT, 1}}, {{2, LE, 1}}, {{0, GE, 1}, {1, LT, 1}}, {{1, LE, 2}, {2, GT, 1}}};
  std::vector<Guard> three3 = three;
  for (int x = 0; x < 3; x++) for (int c = 1; c <= 2; c++) for (Op op : {LT, LE, GE, GT}) three3.push_back({{x, op, c}});
  std::vector<Family> fs;
  fs.push_back(chain1(0, G12, G123, "ab"));
  fs.push_back(chain1(1, G123, G123, "ab"));
  fs.push_back(chain1(2, G123, few5, "ab"));
  fs.push_back(chain1(3, few5, few, th ? "ab" : "a"));
  fs.push_back(chain2(2, two, two, {"aa", "ab"}));
  fs.push_back(chain2(3, th ? two : std::vector<Guard>{{}, {{0, LE, 1}}, {{1, GE, 2}}, {{0, GT, 1}, {1, LT, 2}}}, {{}, {{0, GT, 1}, {1, LT, 2}}}, {"aba"}));
  fs.push_back(graph(1, 2, G12, G12, "ab"));
  fs.push_back(graph(2, 2, G12, few5, "ab"));
  fs.push_back(graph(2, 3, few5, few, "ab"));
  fs.push_back(graph(3, 3, few, few, "ab"));
  fs.push_back(graph(3, 4, th ? few : std::vector<Guard>{{}, {{0, GE, 1}}}, {{{0, LT, 1}}}, th ? "ab" : "a"));
  fs.push_back(graph(2, 2, few5, few5, std::string("a\0", 2)));
  fs.push_back(graph(3, 3, few, few, std::string("a\0", 2)));
  if (th) fs.push_back(graph(2, 4, few, few, "ab"));
  fs.push_back(unionChains(1, 2, few, few, "ab"));
  fs.push_back(acceptMask(graph(2, 2, few5, few, "ab"), 2, 0));
  fs.push_back(loops2(two));
  fs.push_back(loops3(th ? three3 : three));
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto &f : fs) { base.push_back(total); total += f.size; if (o.only < 0) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.size); }
  auto make = [&](uint64_t i) {
    size_t k = 0;
    while (k + 1 < fs.size() && i >= base[k + 1]) k++;
    return fs[k].make(i - base[k]);
  };
  return runPool(o, total, [&](uint64_t i) {
    TA A = make(i);
    TimedAutomaton R = toRepo(A);
    std::unordered_map<const TAState *, int> id;
    for (int s = 0; s < A.n; s++) id[R.states[s].get()] = s;
    phase("ta2za");
    ZoneAutomaton Z;
    ta2za(R, Z);
    Regions ref(A);
    uint64_t st = 0, tr = 0;
    std::set<char> letters;
    for (auto &e : A.e) letters.insert(e.a);
    // 1. words leading to each automaton state
    std::map<std::pair<ZSet, std::vector<Regions::C>>, std::string> seen;
    std::vector<std::pair<ZSet, std::vector<Regions::C>>> todo;
    auto push = [&](const ZSet &z, const std::vector<Regions::C> &c, const std::string &w) {
      auto k = std::make_pair(z, c);
      if (seen.insert({k, w}).second) todo.push_back(k);
    };
    phase("words");
    push(zinit(Z), ref.initial(), "");
    bool bad = false, nonEmpty = false;
    std::set<std::string> accepted; // shortest evidence only
    std::vector<std::pair<ZSet, std::string>> accWords;
    while (!todo.empty() && !bad) {
      auto k = todo.back();
      todo.pop_back();
      std::string w = seen[k];
      std::set<int> a, b;
      for (auto s : k.first) {
        auto it = id.find(s->taState);
        if (it == id.end()) { fail(i, "structure", A.str(), "a zone automaton state refers to no automaton state"); bad = true; break; }
        if (s->isMatch != (A.acc[it->second] != 0)) { fail(i, "structure", A.str(), "acceptance of a zone automaton state differs from its automaton state"); bad = true; break; }
        a.insert(it->second);
      }
      if (bad) break;
      for (auto &c : k.second) { b.insert(c.s); nonEmpty = nonEmpty || A.acc[c.s]; }
      st++;
      if (a != b) {
        std::string d;
        for (int s : b) if (!a.count(s)) d += " state " + std::to_string(s) + " is not reached";
        for (int s : a) if (!b.count(s)) d += " state " + std::to_string(s) + " is wrongly reached";
        fail(i, "reach", A.str(), "after '" + w + "':" + d);
        bad = true;
        break;
      }
      for (char c : letters) { auto z = zpost(k.first, c); auto r = ref.post(k.second, c, &tr); if (!z.empty() || !r.empty()) push(z, r, w + c); }
    }
    count(STATES, st); count(TRANSITIONS, tr); count(TRACES); count(EVALS); count(AUX1, Z.states.size());
    if (nonEmpty) count(NONTRIVIAL);
    if (i % 9973 == 0) sample(A.str() + ": " + std::to_string(Z.states.size()) + " zone states");
    if (bad) return;
    // 2. emptiness, before and after pruning
    phase("prune");
    if (Z.empty() == nonEmpty) { fail(i, "empty", A.str(), std::string("empty() says ") + (Z.empty() ? "empty" : "non-empty")); return; }
    {
      std::set<std::string> dup;
      for (auto &s : Z.states) { std::string key = std::to_string(id[s->taState]) + "|"; for (int q = 1; q < s->zone.value.size(); q++) key += std::to_string(s->zone.value.data()[q].first) + (s->zone.value.data()[q].second ? "c" : "o"); if (!dup.insert(key).second) count(AUX2); }
    }
    ZoneAutomaton P = Z;
    Z = ZoneAutomaton(); // P alone keeps the states alive
    P.removeDeadStates();
    if (P.empty() == nonEmpty) { fail(i, "empty", A.str(), "pruning changes emptiness"); return; }
    // 3. the pruned automaton accepts the same words: simulate again
    seen.clear(); todo.clear();
    push(zinit(P), ref.initial(), "");
    std::set<ZAState *> reached;
    while (!todo.empty()) {
      auto k = todo.back();
      todo.pop_back();
      std::string w = seen[k];
      bool za = false, ra = false;
      for (auto s : k.first) { za = za || s->isMatch; reached.insert(s); }
      for (auto &c : k.second) ra = ra || A.acc[c.s];
      if (za != ra) { fail(i, "prune", A.str(), "after pruning, '" + w + "' is " + (za ? "accepted wrongly" : "no longer accepted")); return; }
      for (char c : letters) { auto z = zpost(k.first, c); auto r = ref.post(k.second, c); if (!z.empty() || !r.empty()) push(z, r, w + c); }
    }
    // 4. every state left lies on an accepting run
    std::set<ZAState *> good;
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &s : P.states) {
        if (good.count(s.get())) continue;
        bool g = s->isMatch;
        for (auto &e : s->next) for (auto &wk : e) if (auto t = wk.lock()) g = g || good.count(t.get());
        if (g) { good.insert(s.get()); ch = true; }
      }
    }
    for (auto &s : P.states)
      if (!good.count(s.get()) || !reached.count(s.get())) { fail(i, "prune", A.str(), "pruning leaves a state on no accepting run"); return; }
  }, [&](uint64_t i) { return make(i).str(); });
}
