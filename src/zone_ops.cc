// Every sequence of zone operations up to a depth, over 2 and 3 clocks, on the
// real Zone against a set of valuations on the quarter grid.
//   The window compared is [0,3]^k; the model keeps values up to a cap large
// enough that a longer delay never gives a new valuation in the window: with
// constants <= 2 a delay above 4 can be shortened without changing any
// comparison, so 4 units per elapse suffice.
#include "pool.hh"
#include "libmonaa/zone.hh"
#include <cmath>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace vp;
static int K, CAP, WIN = 12; // grid units (quarters)
struct OpDesc { int kind, x, y, c; bool le; }; // kind 0: x - y <= c (0 = constant), 1 reset, 2 elapse, 3 canonize
static std::vector<OpDesc> ops;
static std::string opStr(const OpDesc &o) {
  char b[64];
  auto nm = [&](int i) { return i ? "x" + std::to_string(i - 1) : std::string("0"); };
  switch (o.kind) {
  case 0: snprintf(b, sizeof b, "%s-%s%s%d", nm(o.x).c_str(), nm(o.y).c_str(), o.le ? "<=" : "<", o.c); return b;
  case 1: return nm(o.x) + ":=0";
  case 2: return "elapse";
  default: return "canonize";
  }
}
using Set = std::vector<bool>; // indexed by mixed radix CAP+1
static std::vector<int> stride;
static int total;
static std::vector<int> before, region, winPts; // winPts: the points of the compared window
static inline int coord(int p, int i) { return (p / stride[i]) % (CAP + 1); }

static Set applyOp(const Set &s, const OpDesc &o) {
  Set r(total, false);
  if (o.kind == 3) return s;
  for (int p = 0; p < total; p++) {
    if (!s[p]) continue;
    if (o.kind == 0) {
      int vx = o.x ? coord(p, o.x - 1) : 0, vy = o.y ? coord(p, o.y - 1) : 0;
      if (o.le ? vx - vy <= 4 * o.c : vx - vy < 4 * o.c) r[p] = true;
    } else if (o.kind == 1) {
      r[p - coord(p, o.x - 1) * stride[o.x - 1]] = true;
    }
  }
  if (o.kind == 1) { // the image of a region is a region, but only some of its grid points were hit
    for (int p = 0; p < total; p++) if (r[p]) r[region[p]] = true;
    for (int p = 0; p < total; p++) if (r[region[p]]) r[p] = true;
  }
  if (o.kind == 2) {
    // Time elapses by any positive real amount. The sets are unions of regions
    // (integer parts and the order of the fractional parts), so the region of
    // v - 1/8 stands for every delay strictly between 0 and 1/4.
    int step = 0;
    for (int i = 0; i < K; i++) step += stride[i];
    for (int p = 0; p < total; p++) { // p - step < p, so r[p - step] is final
      if (before[p] < 0) continue;
      r[p] = s[before[p]] || s[p - step] || r[p - step];
    }
  }
  return r;
}
// before[v]: a grid point in the region of v - 1/8, or -1
static void initBefore() {
  before.assign(total, -1);
  for (int p = 0; p < total; p++) {
    std::vector<int> ip(K), fr(K), order;
    bool ok = true;
    for (int i = 0; i < K; i++) {
      int e = 2 * coord(p, i) - 1; // eighths
      if (e < 0) { ok = false; break; }
      ip[i] = e / 8; fr[i] = e % 8; // odd
    }
    if (!ok) continue;
    std::set<int> distinct(fr.begin(), fr.end());
    int q = 0;
    for (int i = 0; i < K; i++) {
      int rank = (int)std::distance(distinct.begin(), distinct.find(fr[i])) + 1; // 1..3
      q += (ip[i] * 4 + rank) * stride[i];
    }
    before[p] = q;
  }
  // region[v]: the grid point with the same integer parts, the same order of fractional parts, and least fractions
  region.assign(total, 0);
  for (int p = 0; p < total; p++) {
    std::set<int> distinct = {0};
    for (int i = 0; i < K; i++) distinct.insert(coord(p, i) % 4);
    for (int i = 0; i < K; i++)
      region[p] += (coord(p, i) / 4 * 4 + (int)std::distance(distinct.begin(), distinct.find(coord(p, i) % 4))) * stride[i];
  }
}

static std::vector<char> isWin;
static std::vector<std::pair<Zone, Set>> partners;
static bool inZone(const Zone &z, int p) {
  for (int i = 0; i <= K; i++)
    for (int j = 0; j <= K; j++) {
      const Bounds b = z.value(i, j);
      if (std::isinf(b.first) && b.first > 0) continue;
      int vi = i ? coord(p, i - 1) : 0, vj = j ? coord(p, j - 1) : 0;
      double d = (vi - vj) / 4.0;
      if (!(b.second ? d <= b.first : d < b.first)) return false;
    }
  return true;
}
static void realOp(Zone &z, const OpDesc &o) {
  if (o.kind == 0) z.tighten((ClockVariables)(o.x - 1), (ClockVariables)(o.y - 1), Bounds{(double)o.c, o.le});
  else if (o.kind == 1) z.reset((ClockVariables)(o.x - 1));
  else if (o.kind == 2) z.elapse();
  else z.canonize();
}
static std::string check(const Zone &z, const Set &s, bool &empty) {
  empty = std::find(s.begin(), s.end(), true) == s.end();
  Zone c = z;
  bool sat = c.isSatisfiable();
  if (sat == empty) return std::string("isSatisfiable says ") + (sat ? "non-empty" : "empty");
  if (empty) return "";
  for (int pass = 0; pass < 2; pass++) { // as it is, and after the canonisation done by isSatisfiable
    const Zone &q = pass ? c : z;
    for (int p : winPts) {
      if (inZone(q, p) != s[p]) {
        std::string at;
        for (int i = 0; i < K; i++) at += (i ? "," : "") + std::to_string(coord(p, i) / 4.0).substr(0, 4);
        return std::string(s[p] ? "lost" : "gained") + " the valuation (" + at + ")" + (pass ? " after canonize" : "");
      }
    }
  }
  // the strongest guard with constants up to a bound
  for (int m = 1; m <= 2; m++) {
    Zone g = z;
    g.M = Bounds{(double)m, true};
    auto guard = g.makeGuard();
    std::vector<int> lo(K, 1 << 20), hi(K, -1); // in half units: 2c an integer, 2c+1 strictly above it
    auto half = [](int q) { return q / 4 * 2 + (q % 4 ? 1 : 0); };
    for (int p = 0; p < total; p++) if (s[p]) for (int i = 0; i < K; i++) { lo[i] = std::min(lo[i], half(coord(p, i))); hi[i] = std::max(hi[i], half(coord(p, i))); }
    for (int i = 0; i < K; i++) {
      if (lo[i] > 2 * m) lo[i] = 2 * m + 1; // "above m" is the strongest such bound
      for (int h = 0; h <= 2 * WIN / 4; h++) {
        bool want = h >= lo[i] && (hi[i] >= 2 * m || h <= hi[i]), got = true;
        for (auto &k : guard) if (k.x == i) got = got && k.satisfy(h / 2.0);
        if (want != got) return "makeGuard with bound " + std::to_string(m) + (got ? " allows" : " excludes") + " x" + std::to_string(i) + "=" + std::to_string(h / 2.0).substr(0, 3);
      }
    }
  }
  // intersection with fixed zones
  for (auto &pz : partners) {
    Zone g = c;
    g.intersectionAssign(pz.first);
    bool any = false;
    for (int p = 0; p < total; p++) any = any || (s[p] && pz.second[p]);
    bool sat = g.isSatisfiable();
    if (sat != any) return "intersection is misreported as " + std::string(sat ? "non-empty" : "empty");
    if (any) for (int p : winPts) {
      if (inZone(g, p) != (s[p] && pz.second[p])) return "wrong intersection";
    }
  }
  // projection to a range of clocks
  for (int from = 0; from < K; from++)
    for (int to = from; to < K; to++) {
      std::shared_ptr<Zone> out;
      c.cutVars(out, from, to);
      if ((int)out->getNumOfVar() != to - from + 1) return "cutVars returns a zone of " + std::to_string(out->getNumOfVar()) + " clocks";
      std::set<std::vector<int>> want, got;
      for (int p = 0; p < total; p++) {
        bool win = true;
        for (int i = from; i <= to; i++) win = win && coord(p, i) <= WIN;
        if (!win || (!s[p] && !isWin[p])) continue;
        std::vector<int> v;
        for (int i = from; i <= to; i++) v.push_back(coord(p, i));
        if (s[p]) want.insert(v);
        bool in = true;
        for (int i = 0; i <= to - from + 1; i++) for (int j = 0; j <= to - from + 1; j++) {
          const Bounds b = out->value(i, j);
          if (std::isinf(b.first) && b.first > 0) continue;
          double d = ((i ? v[i - 1] : 0) - (j ? v[j - 1] : 0)) / 4.0;
          if (!(b.second ? d <= b.first : d < b.first)) in = false;
        }
        if (in) got.insert(v);
      }
      // the grid points of a projection need not lift to grid points of the set: compare regions
      auto reg = [](const std::set<std::vector<int>> &x) {
        std::set<std::vector<int>> r;
        for (auto v : x) {
          std::set<int> d = {0};
          for (int q : v) d.insert(q % 4);
          for (int &q : v) q = q / 4 * 4 + (int)std::distance(d.begin(), d.find(q % 4));
          r.insert(v);
        }
        return r;
      };
      if (reg(want) != reg(got)) return "cutVars(" + std::to_string(from) + "," + std::to_string(to) + ") is not the projection";
    }
  {
    Zone u = c;
    u.makeUnsat();
    if (u.isSatisfiable()) return "makeUnsat leaves the zone satisfiable";
  }
  // abstraction
  for (int m = 1; m <= 2; m++) {
    Zone a = c;
    a.M = Bounds{(double)m, true};
    a.abstractize();
    a.canonize();
    for (int p : winPts) {
      if (s[p] && !inZone(a, p)) return "abstraction with bound " + std::to_string(m) + " removes a valuation";
    }
    if (!a.isSatisfiable()) return "abstraction made the zone unsatisfiable";
    // after time elapses, no single comparison below the bound may change
    Zone e1 = c, e2 = a;
    e1.elapse();
    e2.elapse();
    for (int x = 0; x < K; x++)
      for (int cst = 0; cst <= m; cst++)
        for (int k = 0; k < 4; k++) {
          Zone u = e1, v = e2;
          for (Zone *q : {&u, &v}) {
            if (k < 2) q->tighten(x, -1, Bounds{(double)cst, k == 1});
            else q->tighten(-1, x, Bounds{-(double)cst, k == 3});
          }
          if (u.isSatisfiable() != v.isSatisfiable()) return "abstraction with bound " + std::to_string(m) + " changes a comparison of x" + std::to_string(x) + " with " + std::to_string(cst);
        }
  }
  return "";
}

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  K = 2;
  for (auto &a : o.rest) if (a == "3") K = 3;
  bool th = o.tier == "thorough";
  int depth = K == 2 ? (th ? 6 : 5) : (th ? 4 : 3);
  int maxElapse = K == 2 ? 4 : 3;
  CAP = 16 * maxElapse + 4;
  if (K == 3) CAP = th ? 32 : 28;
  total = 1;
  for (int i = 0; i < K; i++) { stride.push_back(total); total *= CAP + 1; }
  initBefore();
  isWin.assign(total, 0);
  for (int p = 0; p < total; p++) {
    bool win = true;
    for (int i = 0; i < K; i++) win = win && coord(p, i) <= WIN;
    if (win) { winPts.push_back(p); isWin[p] = 1; }
  }
  for (int x = 1; x <= K; x++) {
    ops.push_back({1, x, 0, 0, true});
    for (int c = 1; c <= (K == 2 ? 2 : 1); c++)
      for (int le = 0; le < 2; le++) {
        ops.push_back({0, x, 0, c, le == 1});
        ops.push_back({0, 0, x, -c, le == 1});
      }
  }
  ops.push_back({2, 0, 0, 0, true});
  ops.push_back({3, 0, 0, 0, true});
  for (int x = 1; x <= K; x++) for (int y = 1; y <= K; y++) if (x != y) { ops.push_back({0, x, y, 1, true}); ops.push_back({0, x, y, 0, false}); ops.push_back({0, x, y, -1, false}); }
  {
    auto universal = [&] {
      Zone u = Zone::universal(K);
      for (int i = 1; i <= K; i++) { u.value(i, i) = Bounds{0, true}; u.value(0, i) = Bounds{0, true}; }
      return u;
    };
    std::vector<std::vector<OpDesc>> defs = {{{0, 1, 0, 1, false}}, {{0, 0, 2, -1, true}}, {{0, 1, 2, 0, false}}, {{0, 0, 1, -1, false}, {0, 2, 0, 2, true}}, {{0, 2, 1, 0, true}, {0, 0, 2, -1, false}}};
    // conflicts that take two constraints of either zone
    if (K == 3) for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) if (a != b) defs.push_back({{0, a, b, 0, true}, {0, 0, 6 - a - b, -1, true}});
    for (auto &d : defs) {
      Zone u = universal();
      Set all(total, true);
      for (auto &q : d) { u.tighten((ClockVariables)(q.x - 1), (ClockVariables)(q.y - 1), Bounds{(double)q.c, q.le}); all = applyOp(all, q); }
      u.canonize();
      partners.push_back({u, all});
    }
  }
  // starting zones: all zero, and everything
  const int A = (int)ops.size();
  // a case: start zone x first two operations; the rest is a depth-first search
  uint64_t n = 2ull * A * A;
  auto describe = [&](uint64_t i) { return std::string(i % 2 ? "universal" : "zero") + "; " + opStr(ops[i / 2 % A]) + "; " + opStr(ops[i / 2 / A]); };
  return runPool(o, n, [&](uint64_t idx) {
    Zone z0;
    if (idx % 2) z0 = Zone::universal(K); else z0 = Zone::zero(K + 1);
    if (idx % 2) {
      // universal leaves the diagonal and the non-negativity of clocks open
      for (int i = 1; i <= K; i++) { z0.value(i, i) = Bounds{0, true}; z0.value(0, i) = Bounds{0, true}; }
    }
    z0.M = Bounds{2, true};
    Set s0(total, idx % 2 == 1);
    if (idx % 2 == 0) s0[0] = true;
    uint64_t states = 0, trans = 0, nontriv = 0;
    bool bad = false;
    std::unordered_set<std::string> seen;
    std::function<void(const Zone &, const Set &, int, int, bool, const std::string &)> dfs = [&](const Zone &z, const Set &s, int d, int el, bool canon, const std::string &path) {
      for (int k = 0; k < A && !bad; k++) {
        if (d == 0 && k != (int)(idx / 2 % A)) continue;
        if (d == 1 && k != (int)(idx / 2 / A)) continue;
        const OpDesc &op = ops[k];
        if (op.kind == 2 && el >= maxElapse) continue;
        if ((op.kind == 1 || op.kind == 2) && !canon) continue; // every operation but the start keeps a non-empty canonical zone canonical
        Set s2 = applyOp(s, op);
        Zone z2 = z;
        realOp(z2, op);
        trans++;
        bool empty;
        std::string key;
        for (int i = 0; i < z2.value.size(); i++) key += std::to_string(z2.value.data()[i].first) + (z2.value.data()[i].second ? "c" : "o");
        // the same matrix with the same set at the same depth has the same future
        key += (op.kind == 3 || op.kind == 1 || canon) ? "C" : "N"; key += "|" + std::to_string(d) + "|" + std::to_string(el);
        size_t h = std::hash<std::vector<bool>>()(s2);
        if (!seen.insert(key + std::to_string(h)).second) continue;
        states++;
        std::string p2 = path + "; " + opStr(op);
        std::string err = check(z2, s2, empty);
        if (!err.empty()) { bad = true; fail(idx, "zone", (idx % 2 ? "universal" : "zero") + p2, err); return; }
        nontriv += !empty;
        if (!empty && d + 1 < depth) dfs(z2, s2, d + 1, el + (op.kind == 2), op.kind == 3 || op.kind == 1 || canon, p2);
      }
    };
    dfs(z0, s0, 0, 0, true, "");
    count(STATES, states); count(TRANSITIONS, trans); count(TRACES, trans); count(EVALS, states); count(NONTRIVIAL, nontriv);
    if (idx % 97 == 0) sample(describe(idx) + ": " + std::to_string(states) + " distinct zones");
  }, describe);
}
