// Explicit-state region semantics of a timed automaton: valuations up to
// region equivalence, delays strictly positive. Independent of zones.
#pragma once
#include "ta.hh"
#include <map>
namespace vp {
// A region: per clock an integer in quarters whose integer part is exact and
// whose fraction (0 or rank 1..3) orders the clocks; BIG when above the bound.
struct Regions {
  const TA &A;
  int M, BIG;
  std::vector<std::vector<const E *>> edges;
  explicit Regions(const TA &a) : A(a), M(a.maxConst()), BIG(4 * a.maxConst() + 1), edges(a.n) {
    for (auto &e : A.e) edges[e.s].push_back(&e);
  }
  using V = std::vector<int>;
  struct C {
    int s;
    V v;
    bool operator<(const C &o) const { return s != o.s ? s < o.s : v < o.v; }
    bool operator==(const C &o) const { return s == o.s && v == o.v; }
  };
  V canon8(const V &e) const { // from eighths
    std::set<int> fr = {0};
    for (int x : e) if (x <= 8 * M) fr.insert(x % 8);
    V r(e.size());
    for (size_t i = 0; i < e.size(); i++) r[i] = e[i] > 8 * M ? BIG : e[i] / 8 * 4 + (int)std::distance(fr.begin(), fr.find(e[i] % 8));
    return r;
  }
  // every region reached by a strictly positive delay
  std::vector<V> delays(const V &v) const {
    std::vector<V> out;
    V e(v.size());
    for (size_t i = 0; i < v.size(); i++) e[i] = v[i] == BIG ? 8 * M + 8 : 2 * v[i];
    for (int d = 1; d <= 8 * (M + 1) + 1; d++) {
      V f = e;
      for (auto &x : f) x += d;
      V c = canon8(f);
      if (out.empty() || !(out.back() == c)) out.push_back(c);
      bool all = true;
      for (int x : c) all = all && x == BIG;
      if (all) break;
    }
    if (v.empty() && out.empty()) out.push_back(v);
    return out;
  }
  bool ok(const V &v, const std::vector<G> &g) const {
    for (auto &k : g) if (!sat(v[k.x], k)) return false;
    return true;
  }
  std::vector<C> initial() const {
    std::vector<C> r;
    for (int s : A.init) r.push_back({s, V(A.clocks, 0)});
    norm(r);
    return r;
  }
  static void norm(std::vector<C> &r) {
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
  }
  std::vector<C> post(const std::vector<C> &in, char a, uint64_t *tr = nullptr) const {
    std::vector<C> r;
    for (auto &c : in) {
      bool any = false;
      for (auto e : edges[c.s]) any = any || e->a == a;
      if (!any) continue;
      for (auto &v : delays(c.v))
        for (auto e : edges[c.s])
          if (e->a == a && ok(v, e->g)) {
            C n{e->d, v};
            V e8(v.size());
            for (size_t i = 0; i < v.size(); i++) e8[i] = v[i] == BIG ? 8 * M + 8 : 2 * v[i];
            for (int x : e->r) e8[x] = 0;
            n.v = canon8(e8);
            r.push_back(n);
            if (tr) ++*tr;
          }
    }
    norm(r);
    return r;
  }
};
} // namespace vp
