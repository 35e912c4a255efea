#pragma once
#include "ta.hh"
#include "libmonaa/timed_automaton.hh"
#include <unordered_map>
namespace vp {
// Reads a library automaton back into the reference representation; `err`
// describes a malformed automaton (dangling target, clock out of range, ...).
static inline TA fromRepo(const TimedAutomaton &R, std::string &err, bool checkMax = true) {
  TA A;
  std::unordered_map<const TAState *, int> id;
  for (auto &s : R.states) {
    if (!s) { err = "null state"; return A; }
    id[s.get()] = A.n++;
    A.acc.push_back(s->isMatch);
  }
  for (auto &s : R.initialStates) {
    auto it = id.find(s.get());
    if (!s || it == id.end()) { err = "initial state not among the states"; return A; }
    A.init.push_back(it->second);
  }
  A.clocks = (int)R.clockSize();
  for (auto &s : R.states)
    for (auto &p : s->next)
      for (auto &t : p.second) {
        auto it = id.find(t.target);
        if (it == id.end()) { err = "transition target not among the states"; return A; }
        E e;
        e.s = id[s.get()]; e.a = p.first; e.d = it->second;
        for (auto x : t.resetVars) {
          if (x >= R.clockSize()) { err = "reset of clock " + std::to_string((int)x) + " beyond the clock count"; return A; }
          e.r.push_back(x);
        }
        for (auto &g : t.guard) {
          if (g.x >= R.clockSize()) { err = "guard on clock beyond the clock count"; return A; }
          if (checkMax && g.c > R.maxConstraints[g.x]) { err = "guard constant above the recorded maximum of its clock"; return A; }
          Op o = g.odr == Constraint::Order::lt ? LT : g.odr == Constraint::Order::le ? LE : g.odr == Constraint::Order::gt ? GT : GE;
          e.g.push_back({g.x, o, g.c});
        }
        std::sort(e.r.begin(), e.r.end());
        e.r.erase(std::unique(e.r.begin(), e.r.end()), e.r.end());
        A.e.push_back(e);
      }
  return A;
}
// configuration with any number of clocks
struct BigCfg {
  int s;
  std::vector<int> rt;
  bool operator<(const BigCfg &o) const { return s != o.s ? s < o.s : rt < o.rt; }
  bool operator==(const BigCfg &o) const { return s == o.s && rt == o.rt; }
};
struct TaRunner {
  const TA &A;
  std::vector<std::vector<const E *>> edges;
  explicit TaRunner(const TA &a) : A(a), edges(a.n) { for (auto &e : A.e) edges[e.s].push_back(&e); }
  std::vector<BigCfg> initial(int t4) const {
    std::vector<BigCfg> v;
    for (int s : A.init) v.push_back({s, std::vector<int>(A.clocks, t4)});
    norm(v);
    return v;
  }
  static void norm(std::vector<BigCfg> &v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  std::vector<BigCfg> step(const std::vector<BigCfg> &c, char a, int t4) const {
    std::vector<BigCfg> n;
    for (auto &k : c)
      for (auto e : edges[k.s])
        if (e->a == a) {
          bool ok = true;
          for (auto &g : e->g) if (!sat(t4 - k.rt[g.x], g)) { ok = false; break; }
          if (!ok) continue;
          BigCfg d = k;
          d.s = e->d;
          for (int x : e->r) d.rt[x] = t4;
          n.push_back(std::move(d));
        }
    norm(n);
    return n;
  }
  bool accepting(const std::vector<BigCfg> &c) const {
    for (auto &k : c) if (A.acc[k.s]) return true;
    return false;
  }
};
} // namespace vp
