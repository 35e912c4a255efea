// Binding of the reference values to the real library.
#pragma once
#include "ta.hh"
#include <cstdlib>
#include <cstdio>
#include <stdexcept>
#include "libmonaa/monaa.hh"
#include "libmonaa/timed_automaton.hh"

#include "pool.hh"
namespace vp {
static inline TimedAutomaton toRepo(const TA &A, const std::vector<int> &perm = {}) {
  TimedAutomaton R;
  std::vector<std::shared_ptr<TAState>> st(A.n);
  for (int i = 0; i < A.n; i++) st[i] = std::make_shared<TAState>(A.acc[i] != 0);
  for (auto &k : A.e) {
    TATransition t;
    t.target = st[k.d].get();
    for (int x : k.r) t.resetVars.push_back((ClockVariables)x);
    for (auto &g : k.g) {
      Constraint::Order o = g.op == LT ? Constraint::Order::lt : g.op == LE ? Constraint::Order::le
                          : g.op == GT ? Constraint::Order::gt : Constraint::Order::ge;
      t.guard.push_back(Constraint{(ClockVariables)g.x, o, g.c});
    }
    st[k.s]->next[k.a].push_back(t);
  }
  if (perm.empty()) R.states = st;
  else for (int i : perm) R.states.push_back(st[i]);
  for (int i : A.init) R.initialStates.push_back(st[i]);
  R.maxConstraints.assign(A.clocks, 0);
  for (auto &k : A.e) for (auto &g : k.g) R.maxConstraints[g.x] = std::max(R.maxConstraints[g.x], g.c);
  return R;
}

struct MemWord : public WordContainer<::Vector<std::pair<Alphabet, double>>> {
  MemWord(const Word &w) : WordContainer<::Vector<std::pair<Alphabet, double>>>(nullptr, false) {
    for (auto &e : w) this->vec.push_back({(Alphabet)e.a, (double)e.t});
  }
};

static inline void rasterise(const Zone &z, int tailQ, PairSet &out) {
  auto up = [](double b, bool closed) -> long { // largest grid index v with v <= b (or < b)
    if (b > 1e8) return 400000000L;
    double q = b * 4;
    long f = (long)std::floor(q);
    if ((double)f == q && !closed) f--;
    return f;
  };
  auto low = [](double negb, bool closed) -> long { // smallest v with -v <= negb
    double q = -negb * 4;
    if (q < -1e8) return -400000000L;
    long f = (long)std::ceil(q);
    if ((double)f == q && !closed) f++;
    return f;
  };
  auto V = [&](int i, int j) { return z.value(i, j); };
  long tl = std::max(0L, low(V(0, 1).first, V(0, 1).second)), th = std::min<long>(tailQ, up(V(1, 0).first, V(1, 0).second));
  long ul = low(V(0, 2).first, V(0, 2).second), uh = std::min<long>(tailQ, up(V(2, 0).first, V(2, 0).second));
  long dl = low(V(1, 2).first, V(1, 2).second), dh = up(V(2, 1).first, V(2, 1).second);
  for (long t = tl; t <= th; t++) {
    long a = std::max(ul, t + dl), b = std::min(uh, dh > 100000000L ? uh : t + dh);
    if (a <= t) a = t + 1;
    for (long u = a; u <= b; u++) out.push_back(code((int)t, (int)u));
  }
}

static inline std::string pairDiff(const PairSet &want, const PairSet &got) {
  PairSet miss, extra;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
  char b[256];
  std::string s = std::to_string(miss.size()) + " missed, " + std::to_string(extra.size()) + " extra;";
  if (!miss.empty()) { snprintf(b, sizeof b, " first missed (t,t')=(%g,%g)", (miss[0] >> 32) / 4.0, (uint32_t)miss[0] / 4.0); s += b; }
  if (!extra.empty()) { snprintf(b, sizeof b, " first extra (t,t')=(%g,%g)", (extra[0] >> 32) / 4.0, (uint32_t)extra[0] / 4.0); s += b; }
  return s;
}

// returns 0 = ran, otherwise the exit code the library asked for
static inline int implMatch(const TimedAutomaton &A, const Word &w, Mode mode, int tailUnits, PairSet &out, uint64_t *nz = nullptr) {
  static AnsVec<Zone> *ansP;
  ansP = new AnsVec<Zone>;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) {
    vpExitArmed = 0;
    return vpExitCode ? vpExitCode : -1;
  }
  {
    MemWord mw(w);
    if (mode == DOLLAR) monaaDollar(mw, A, *ansP);
    else if (mode == NOT_NEC) monaaNotNecessaryDollar(mw, A, *ansP);
    else monaa(mw, A, *ansP);
  }
  vpExitArmed = 0;
  AnsVec<Zone> &ans = *ansP;
  int tailQ = 4 * ((w.empty() ? 0 : w.back().t) + tailUnits);
  for (auto &z : ans) rasterise(z, tailQ, out);
  if (nz) *nz = ans.size();
  normalise(out);
  delete ansP;
  return 0;
}
} // namespace vp
