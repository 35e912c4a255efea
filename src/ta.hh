// The reference side: a plain timed-automaton value type and an explicit-state
// oracle for timed pattern matching. Nothing here uses the code under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <set>
#include <string>
#include <vector>

namespace vp {

enum Op { LT, LE, GT, GE };
static const char *opName[] = {"<", "<=", ">", ">="};

struct G { int x; Op op; int c; };
struct E { int s; char a; int d; std::vector<G> g; std::vector<int> r; };
struct TA {
  int n = 0, clocks = 0;
  std::vector<int> init;
  std::vector<char> acc;
  std::vector<E> e;
  int maxConst() const {
    int m = 0;
    for (auto &k : e) for (auto &g : k.g) m = std::max(m, g.c);
    return m;
  }
  std::string str() const {
    std::string s = "init={";
    for (int i : init) s += std::to_string(i) + " ";
    s += "} acc={";
    for (int i = 0; i < n; i++) if (acc[i]) s += std::to_string(i) + " ";
    s += "}";
    for (auto &k : e) {
      s += " " + std::to_string(k.s) + "-" + std::string(1, k.a) ;
      for (auto &g : k.g) s += std::string("[x") + std::to_string(g.x) + opName[g.op] + std::to_string(g.c) + "]";
      if (!k.r.empty()) { s += "{"; for (int x : k.r) s += "x" + std::to_string(x) + ":=0 "; s += "}"; }
      s += "->" + std::to_string(k.d);
    }
    return s;
  }
  std::string dot() const {
    std::string s = "digraph G {\n";
    for (int i = 0; i < n; i++) {
      bool in = std::find(init.begin(), init.end(), i) != init.end();
      s += "loc" + std::to_string(i) + " [init=" + (in ? "1" : "0") + ", match=" + (acc[i] ? "1" : "0") + "]\n";
    }
    for (auto &k : e) {
      s += "loc" + std::to_string(k.s) + "->loc" + std::to_string(k.d) + " [label=\"" + std::string(1, k.a) + "\"";
      if (!k.g.empty()) {
        s += ", guard=\"{";
        for (size_t i = 0; i < k.g.size(); i++)
          s += std::string(i ? ", " : "") + "x" + std::to_string(k.g[i].x) + " " + opName[k.g[i].op] + " " + std::to_string(k.g[i].c);
        s += "}\"";
      }
      if (!k.r.empty()) {
        s += ", reset=\"{";
        for (size_t i = 0; i < k.r.size(); i++) s += std::string(i ? ", " : "") + std::to_string(k.r[i]);
        s += "}\"";
      }
      s += "]\n";
    }
    return s + "}\n";
  }
};

struct Ev { char a; int t; }; // integer time, in units; the grid step is a quarter
using Word = std::vector<Ev>;

static inline std::string wordStr(const Word &w) {
  std::string s;
  for (auto &e : w) s += std::string(1, e.a) + std::to_string(e.t) + " ";
  return s;
}

static inline bool sat(int v4, const G &g) { // v4: clock value in quarters
  int c = g.c * 4;
  switch (g.op) {
  case LT: return v4 < c;
  case LE: return v4 <= c;
  case GT: return v4 > c;
  default: return v4 >= c;
  }
}

using PairSet = std::vector<uint64_t>;
static inline uint64_t code(int t, int u) { return ((uint64_t)t << 32) | (uint32_t)u; }
static inline void normalise(PairSet &p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
}

constexpr int MAXC = 6; // clocks
struct Cfg {
  int s;
  int rt[MAXC];
  Cfg() = default;
  Cfg(int s, int t) : s(s) { std::fill(rt, rt + MAXC, t); }
  bool operator<(const Cfg &o) const { return s != o.s ? s < o.s : std::lexicographical_compare(rt, rt + MAXC, o.rt, o.rt + MAXC); }
  bool operator==(const Cfg &o) const { return s == o.s && std::equal(rt, rt + MAXC, o.rt); }
};

struct OracleStats { uint64_t states = 0, transitions = 0; };

enum Mode {
  DOLLAR,        // t' is where a '$' transition is taken, w[j-1] < t' <= w[j]
  NOT_NEC,       // additionally a non-'$' transition into an accepting state matches at t' = w[j]
  SIGNAL         // an accepting transition labelled w[j].a is taken at some w[j-1] < t' <= w[j]
};

// Every (t, t') on the quarter grid with t < t' such that the segment matches.
// zeroEvents: include segments with no event between t and t'.
static inline void oracleMatch(const TA &A, const Word &w, Mode mode, int tailUnits, bool zeroEvents, PairSet &out, OracleStats &st) {
  const int N = (int)w.size();
  std::vector<std::vector<const E *>> edges(A.n);
  for (auto &k : A.e) edges[k.s].push_back(&k);
  const int tail = 4 * ((N ? w[N - 1].t : 0) + tailUnits);
  std::vector<Cfg> cur, nxt;
  for (int i = 0; i <= N; i++) {
    if (i == N && (!zeroEvents || mode == SIGNAL)) break;
    int lo = i ? 4 * w[i - 1].t : 0, hi = i < N ? 4 * w[i].t : tail; // t in [lo, hi)
    for (int t = lo; t < hi; t++) {
      cur.clear();
      for (int s : A.init) cur.push_back(Cfg(s, t));
      for (int j = i; j <= N && !cur.empty(); j++) {
        st.states += cur.size();
        int elo = std::max(j ? 4 * w[j - 1].t : 0, t) + 1, ehi = j < N ? 4 * w[j].t : tail; // t' in [elo, ehi]
        bool fin = j > i || zeroEvents;
        if (mode != SIGNAL) {
          if (fin)
            for (auto &c : cur)
              for (auto k : edges[c.s])
                if (k->a == '$' && A.acc[k->d])
                  for (int u = elo; u <= ehi; u++) {
                    bool ok = true;
                    for (auto &g : k->g) ok = ok && sat(u - c.rt[g.x], g);
                    if (ok) out.push_back(code(t, u));
                  }
        } else if (j < N) {
          for (auto &c : cur)
            for (auto k : edges[c.s])
              if (k->a == w[j].a && A.acc[k->d])
                for (int u = elo; u <= ehi; u++) {
                  bool ok = true;
                  for (auto &g : k->g) ok = ok && sat(u - c.rt[g.x], g);
                  if (ok) out.push_back(code(t, u));
                }
        }
        if (j == N) break;
        nxt.clear();
        for (auto &c : cur)
          for (auto k : edges[c.s])
            if (k->a == w[j].a) {
              bool ok = true;
              for (auto &g : k->g) ok = ok && sat(4 * w[j].t - c.rt[g.x], g);
              if (!ok) continue;
              Cfg d = c;
              d.s = k->d;
              for (int x : k->r) d.rt[x] = 4 * w[j].t;
              nxt.push_back(d);
              st.transitions++;
              if (mode == NOT_NEC && A.acc[k->d]) out.push_back(code(t, 4 * w[j].t));
            }
        std::sort(nxt.begin(), nxt.end());
        nxt.erase(std::unique(nxt.begin(), nxt.end()), nxt.end());
        cur.swap(nxt);
      }
    }
  }
  normalise(out);
}

// Can an unobservable transition be taken again and again?
static inline bool cyclicEps(const TA &A) {
  for (auto &k : A.e) {
    if (k.a != 0) continue;
    std::set<int> seen = {k.d};
    std::vector<int> todo = {k.d};
    while (!todo.empty()) {
      int s = todo.back();
      todo.pop_back();
      for (auto &l : A.e) if (l.s == s && seen.insert(l.d).second) todo.push_back(l.d);
    }
    if (seen.count(k.s)) return true;
  }
  return false;
}

// SIGNAL mode with unobservable transitions (labelled with the null character),
// which may be taken at any time after the previous and not after the next
// event. Times of resets are in sixteenths, so that up to three unobservable
// transitions fit between two grid points.
static inline void oracleSignalEps(const TA &A, const Word &w, PairSet &out, OracleStats &st) {
  const int N = (int)w.size();
  struct C { Cfg c; int last; bool operator<(const C &o) const { return c == o.c ? last < o.last : c < o.c; } };
  int Q = 8, neps = 0; // sub-units per unit
  for (auto &k : A.e) neps += k.a == 0;
  if (neps > 1 || cyclicEps(A)) Q = 16;
  const int g4 = Q / 4; // one grid step
  std::vector<std::vector<const E *>> edges(A.n);
  for (auto &k : A.e) edges[k.s].push_back(&k);
  auto ok = [Q](const Cfg &c, int u, const std::vector<G> &g) {
    for (auto &k : g) {
      int v = u - c.rt[k.x], b = Q * k.c;
      if (!(k.op == LT ? v < b : k.op == LE ? v <= b : k.op == GT ? v > b : v >= b)) return false;
    }
    return true;
  };
  for (int i = 0; i < N; i++)
    for (int t = Q * (i ? w[i - 1].t : 0); t < Q * w[i].t; t += g4) {
      std::vector<C> cur;
      for (int s : A.init) cur.push_back(C{Cfg(s, t), t});
      for (int j = i; j < N && !cur.empty(); j++) {
        int lo = std::max(j ? Q * w[j - 1].t + 1 : 0, t), hi = Q * w[j].t;
        std::set<C> all(cur.begin(), cur.end());
        std::vector<C> todo(all.begin(), all.end());
        while (!todo.empty()) {
          C c = todo.back();
          todo.pop_back();
          for (auto k : edges[c.c.s])
            if (k->a == 0)
              for (int u = std::max(lo, c.last); u <= hi; u++)
                if (ok(c.c, u, k->g)) {
                  C d = c;
                  d.c.s = k->d; d.last = u;
                  for (int x : k->r) d.c.rt[x] = u;
                  st.transitions++;
                  if (all.insert(d).second) todo.push_back(d);
                }
        }
        cur.assign(all.begin(), all.end());
        st.states += cur.size();
        std::vector<C> nxt;
        for (auto &c : cur)
          for (auto k : edges[c.c.s])
            if (k->a == w[j].a) {
              if (A.acc[k->d])
                for (int u = std::max({(lo + g4 - 1) / g4 * g4, t + g4, (c.last + g4 - 1) / g4 * g4}); u <= hi; u += g4)
                  if (ok(c.c, u, k->g)) out.push_back(code(t / g4, u / g4));
              if (ok(c.c, hi, k->g)) {
                C d = c;
                d.c.s = k->d; d.last = hi;
                for (int x : k->r) d.c.rt[x] = hi;
                nxt.push_back(d);
              }
            }
        cur.swap(nxt);
      }
    }
  normalise(out);
}

// A log whose windows of length k are all words of length k over `sym` symbols
// (linearised de Bruijn sequence).
static inline std::vector<int> deBruijn(int sym, int k) {
  std::vector<int> a(sym * k + 1, 0), seq;
  struct R {
    static void db(int t, int p, int n, int k, std::vector<int> &a, std::vector<int> &seq) {
      if (t > n) {
        if (n % p == 0) for (int j = 1; j <= p; j++) seq.push_back(a[j]);
      } else {
        a[t] = a[t - p];
        db(t + 1, p, n, k, a, seq);
        for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t, n, k, a, seq); }
      }
    }
  };
  R::db(1, 1, k, sym, a, seq);
  for (int i = 0; i < k - 1; i++) seq.push_back(seq[i]);
  return seq;
}

struct Alpha { std::string letters; std::vector<int> gaps; int size() const { return letters.size() * gaps.size(); } };
static inline Word mkWord(const Alpha &al, const std::vector<int> &sym) {
  Word w;
  int t = 0;
  for (int s : sym) { t += al.gaps[s / al.letters.size()]; w.push_back({al.letters[s % al.letters.size()], t}); }
  return w;
}
} // namespace vp
