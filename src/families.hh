// Finite families of patterns (timed automata with '$'), decoded from an index.
#pragma once
#include "ta.hh"
#include <memory>
#include <functional>
namespace vp {
struct Radix {
  uint64_t v;
  explicit Radix(uint64_t v) : v(v) {}
  int take(int n) { int r = v % n; v /= n; return r; }
};
using Guard = std::vector<G>;
// one-clock guards over constants lo, hi
static inline std::vector<Guard> guards1(int x, const std::vector<int> &cs, bool strictOnly = false, bool ranges = true) {
  std::vector<Guard> g = {{}};
  for (int c : cs) {
    g.push_back({{x, LT, c}});
    if (!strictOnly) g.push_back({{x, LE, c}});
    if (!strictOnly) g.push_back({{x, GE, c}});
    g.push_back({{x, GT, c}});
  }
  if (ranges && cs.size() > 1) g.push_back({{x, GT, cs[0]}, {x, LT, cs[1]}});
  return g;
}

struct Family {
  std::string name;
  uint64_t size;
  std::function<TA(uint64_t)> make;
  int window;   // de Bruijn order of the long log
  int shortLen; // all words up to this length are run separately
  Alpha alpha;
};

static inline TA chainSkeleton(int k) { // 0 -> 1 -> ... -> k --$--> k+1
  TA A;
  A.n = k + 2;
  A.acc.assign(A.n, 0);
  A.acc[k + 1] = 1;
  A.init = {0};
  return A;
}

// chain of k observable edges, one clock; every combination of letter, guard, reset and final guard
static inline Family chain1(int k, const std::vector<Guard> &gs, const std::vector<Guard> &dollar, const std::string &letters) {
  Family f;
  f.name = "chain1." + std::to_string(k);
  uint64_t per = letters.size() * gs.size() * 2, n = dollar.size();
  for (int i = 0; i < k; i++) n *= per;
  f.size = n;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A = chainSkeleton(k);
    A.clocks = 1;
    for (int i = 0; i < k; i++) {
      E e;
      e.s = i; e.d = i + 1;
      e.a = letters[r.take(letters.size())];
      e.g = gs[r.take(gs.size())];
      if (r.take(2)) e.r = {0};
      A.e.push_back(e);
    }
    A.e.push_back({k, '$', k + 1, dollar[r.take(dollar.size())], {}});
    return A;
  };
  f.window = k + 1;
  f.shortLen = 2;
  return f;
}

static inline Family chain2(int k, const std::vector<Guard> &gs, const std::vector<Guard> &dollar, const std::vector<std::string> &words) {
  Family f;
  f.name = "chain2clocks." + std::to_string(k);
  uint64_t n = dollar.size() * words.size();
  for (int i = 0; i < k; i++) n *= gs.size() * 4;
  f.size = n;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A = chainSkeleton(k);
    A.clocks = 2;
    std::string wd = words[r.take(words.size())];
    for (int i = 0; i < k; i++) {
      E e;
      e.s = i; e.d = i + 1;
      e.a = wd[i];
      e.g = gs[r.take(gs.size())];
      int m = r.take(4);
      if (m & 1) e.r.push_back(0);
      if (m & 2) e.r.push_back(1);
      A.e.push_back(e);
    }
    A.e.push_back({k, '$', k + 1, dollar[r.take(dollar.size())], {}});
    return A;
  };
  f.window = k + 1;
  f.shortLen = 2;
  return f;
}

// All graphs with exactly `m` observable edges over `n` states (0 initial, n-1
// leads to the accepting state by '$'), every edge on some path 0 -> ... -> n-1;
// every combination of guard and reset.
static inline Family graph(int n, int m, const std::vector<Guard> &gs, const std::vector<Guard> &dollar, const std::string &letters) {
  struct Slot { int s, d; char a; };
  std::vector<Slot> slots;
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) for (char a : letters) slots.push_back({s, d, a});
  auto shapes = std::make_shared<std::vector<std::vector<Slot>>>();
  std::vector<int> pick;
  std::function<void(int)> rec = [&](int from) {
    if ((int)pick.size() == m) {
      std::vector<char> fw(n, 0), bw(n, 0);
      fw[0] = 1; bw[n - 1] = 1;
      for (int it = 0; it < n; it++)
        for (int p : pick) { if (fw[slots[p].s]) fw[slots[p].d] = 1; if (bw[slots[p].d]) bw[slots[p].s] = 1; }
      for (int p : pick) if (!fw[slots[p].s] || !bw[slots[p].d]) return;
      for (int s = 0; s < n; s++) if (!fw[s] || !bw[s]) return;
      std::vector<Slot> v;
      for (int p : pick) v.push_back(slots[p]);
      shapes->push_back(v);
      return;
    }
    for (int i = from; i < (int)slots.size(); i++) { pick.push_back(i); rec(i + 1); pick.pop_back(); }
  };
  rec(0);
  Family f;
  f.name = "graph." + std::to_string(n) + "." + std::to_string(m);
  uint64_t sz = shapes->size() * dollar.size();
  for (int i = 0; i < m; i++) sz *= gs.size() * 2;
  f.size = sz;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A;
    A.n = n + 1; A.clocks = 1; A.init = {0};
    A.acc.assign(n + 1, 0); A.acc[n] = 1;
    const auto &sh = (*shapes)[r.take(shapes->size())];
    for (auto &s : sh) {
      E e; e.s = s.s; e.d = s.d; e.a = s.a;
      e.g = gs[r.take(gs.size())];
      if (r.take(2)) e.r = {0};
      A.e.push_back(e);
    }
    A.e.push_back({n - 1, '$', n, dollar[r.take(dollar.size())], {}});
    return A;
  };
  f.window = 3;
  f.shortLen = 2;
  return f;
}

// chain of k steps with two transitions of the same letter each
static inline Family parallel(int k, const std::vector<Guard> &gs, const std::vector<Guard> &dollar, const std::string &letters) {
  Family f;
  f.name = "parallel." + std::to_string(k);
  f.size = dollar.size();
  int per = (int)gs.size() * 2, pairs = per * (per - 1) / 2;
  for (int i = 0; i < k; i++) f.size *= letters.size() * pairs;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A = chainSkeleton(k);
    A.clocks = 1;
    for (int i = 0; i < k; i++) {
      char l = letters[r.take(letters.size())];
      int p = r.take(pairs), x = 1;
      while (p >= x) p -= x++;
      for (int v : {x, p}) { // v < per, p < x
        E e;
        e.s = i; e.d = i + 1; e.a = l;
        e.g = gs[v / 2];
        if (v % 2) e.r = {0};
        A.e.push_back(e);
      }
    }
    A.e.push_back({k, '$', k + 1, dollar[r.take(dollar.size())], {}});
    return A;
  };
  f.window = k + 1;
  f.shortLen = 2;
  return f;
}

// Long chains of k events: every word of letters; one constraint between two
// places, or one more transition between two places.
static inline Family longChain(int k, const std::string &final = "$") {
  Family f;
  f.name = "long." + std::to_string(k);
  const uint64_t pairs = k * (k + 1) / 2, guards = pairs * 4 * 2, extra = (uint64_t)k * (k + 1) * 2;
  f.size = (guards + extra) << k;
  f.make = [=](uint64_t idx) {
    TA A = chainSkeleton(k);
    A.clocks = 1;
    for (int i = 0; i < k; i++) A.e.push_back({i, "ab"[idx >> i & 1], i + 1, {}, {}});
    A.e.push_back({k, final[0], k + 1, {}, {}});
    Radix r(idx >> k);
    uint64_t v = r.take(guards + extra);
    if (v < guards) {
      Op op = (Op)(v % 4);
      int c = v / 4 % 2, p = v / 8, j = 1;
      while (p >= j) p -= j++;
      // reset by event p (0: at the beginning), compared at event j + 1 > p
      if (p) A.e[p - 1].r = {0};
      A.e[j].g = {{0, op, j + 1 - p + c - 1 ? j + 1 - p + c - 1 : 1}};
    } else {
      v -= guards;
      A.e.push_back({(int)(v / 2 % (k)), "ab"[v % 2], (int)(v / 2 / k), {}, {}});
    }
    return A;
  };
  f.window = k + 1;
  f.shortLen = 0;
  return f;
}
// Every event resets a clock of its own, compared d events later.
static inline Family manyClocks(int k, const std::string &final = "$") {
  Family f;
  f.name = "clocks." + std::to_string(k);
  f.size = (3 * 4 * 3 * 4) << k;
  f.make = [=](uint64_t idx) {
    TA A = chainSkeleton(k);
    A.clocks = k;
    for (int i = 0; i < k; i++) A.e.push_back({i, "ab"[idx >> i & 1], i + 1, {}, {i}});
    A.e.push_back({k, final[0], k + 1, {}, {}});
    Radix r(idx >> k);
    int d = 1 + r.take(3), kind = r.take(3), skip = r.take(4);
    Op op = (Op)r.take(4);
    for (int i = -1; i + d <= k; i++)
      if (i != skip - 1) A.e[i + d].g.push_back({i < 0 ? k - 1 : i, (i + kind) % 2 && kind < 2 ? (Op)((op + 2) % 4) : op, d + (kind == 2)});
    return A;
  };
  f.window = k + 1;
  f.shortLen = 0;
  return f;
}

// Many runs at once: after one event (of any of `n` transitions) each goes on by
// itself, in two steps (unobservable ones, or b and a), and they meet again. All
// but one of them may end at the first or at the second of these steps.
static inline Family crowd(const std::vector<int> &ns, bool eps, const std::string &final = "$") {
  Family f;
  f.name = std::string(eps ? "parallel.crowd" : "crowd");
  f.size = ns.size() * 3 * (eps ? 3 : 4) * 3 * 2;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    int n = ns[r.take(ns.size())], where = r.take(3), ends = r.take(eps ? 3 : 4), guard = r.take(3), reset = r.take(2);
    TA A;
    A.clocks = 1; A.n = 2 * n + 3; A.init = {0};
    A.acc.assign(A.n, 0); A.acc[A.n - 1] = 1;
    const int special = where == 0 ? 0 : where == 1 ? n / 2 : n - 1, last = 2 * n + 1;
    const Guard never = {{0, LT, 1}, {0, GT, 1}}, some = guard == 0 ? Guard{} : guard == 1 ? Guard{{0, GT, 1}} : Guard{{0, LT, 2}};
    for (int i = 0; i < n; i++) {
      bool s = i == special;
      A.e.push_back({0, 'a', 1 + i, {}, reset ? std::vector<int>{0} : std::vector<int>{}});
      A.e.push_back({1 + i, eps ? '\0' : 'b', n + 1 + i, s ? some : ends == 1 ? never : Guard{}, {}});
      A.e.push_back({n + 1 + i, eps ? '\0' : 'a', last, s ? Guard{} : ends == 2 ? never : ends == 3 ? Guard{{0, LT, 1 + i % 3}} : Guard{}, {}});
    }
    A.e.push_back({last, final[0], last + 1, {}, {}});
    return A;
  };
  f.window = eps ? 1 : 4;
  f.shortLen = 0;
  return f;
}
// Union of two chains with different initial states, lengths k1 and k2.
static inline Family unionChains(int k1, int k2, const std::vector<Guard> &gs, const std::vector<Guard> &dollar, const std::string &letters) {
  Family f;
  f.name = "union." + std::to_string(k1) + "." + std::to_string(k2);
  uint64_t per = letters.size() * gs.size() * 2, n = dollar.size() * dollar.size();
  for (int i = 0; i < k1 + k2; i++) n *= per;
  f.size = n;
  f.make = [=](uint64_t idx) {
    Radix r(idx);
    TA A;
    A.clocks = 1;
    A.n = k1 + k2 + 4;
    A.acc.assign(A.n, 0);
    int base = 0;
    for (int k : {k1, k2}) {
      A.init.push_back(base);
      for (int i = 0; i < k; i++) {
        E e; e.s = base + i; e.d = base + i + 1;
        e.a = letters[r.take(letters.size())];
        e.g = gs[r.take(gs.size())];
        if (r.take(2)) e.r = {0};
        A.e.push_back(e);
      }
      A.e.push_back({base + k, '$', base + k + 1, dollar[r.take(dollar.size())], {}});
      A.acc[base + k + 1] = 1;
      base += k + 2;
    }
    return A;
  };
  f.window = std::max(k1, k2) + 1;
  f.shortLen = 2;
  return f;
}
} // namespace vp
namespace vp {
// replace the final '$' transitions by transitions on each letter
static inline Family finalLetter(Family f, const std::string &letters) {
  Family g = f;
  g.name = f.name + ".letter";
  g.size = f.size * letters.size();
  g.make = [=](uint64_t idx) {
    TA A = f.make(idx / letters.size());
    for (auto &e : A.e) if (e.a == '$') e.a = letters[idx % letters.size()];
    return A;
  };
  return g;
}
// additionally every choice of accepting states among the first `bits` states
static inline Family acceptMask(Family f, int bits, int from) {
  Family g = f;
  g.name = f.name + ".acc";
  g.size = f.size << bits;
  g.make = [=](uint64_t idx) {
    TA A = f.make(idx >> bits);
    for (int b = 0; b < bits; b++) if ((idx >> b) & 1) A.acc[from + b] = 1;
    return A;
  };
  return g;
}
} // namespace vp
