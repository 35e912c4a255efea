// Every sequence of the operations the matcher performs on an IntermediateZone
// (new time variable, guards relative to earlier variables or known times,
// forgetting unused variables), explored breadth first with duplicates merged,
// against a plain difference-bound matrix over all variables ever introduced.
#include "pool.hh"
#include "libmonaa/intermediate_zone.hh"
#include <set>
#include <unordered_set>
using namespace vp;
using RT = boost::variant<double, ClockVariables>;
// bounds as integers: 2c+1 for <= c, 2c for < c
using B = long;
static const B INF = 1L << 40;
static B add(B a, B b) { return a >= INF || b >= INF ? INF : (a / 2 * 2 == a ? a : a - 1) + (b % 2 ? b - 1 : b) + ((a & 1) && (b & 1)); }
static B mk(int c, bool le) { return 2L * c + (le ? 1 : 0); }
struct Model {
  int n = 0;
  std::vector<B> d; // n x n
  B &at(int i, int j) { return d[i * n + j]; }
  B at(int i, int j) const { return d[i * n + j]; }
  void grow() {
    std::vector<B> e((n + 1) * (n + 1), INF);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i * (n + 1) + j] = at(i, j);
    n++;
    d = e;
    at(n - 1, n - 1) = 1;
  }
  bool close() { // false: empty
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) at(i, j) = std::min(at(i, j), add(at(i, k), at(k, j)));
    for (int i = 0; i < n; i++) if (at(i, i) < 1) return false;
    return true;
  }
  void con(int i, int j, B b) { at(i, j) = std::min(at(i, j), b); }
};
struct Node {
  IntermediateZone z;
  std::vector<RT> rt;
  Model m;
  std::vector<int> map;   // real variable -> model variable
  int newest;             // model variable
  std::vector<std::pair<bool, int>> mrt; // model reset times: (known, value) or (variable, index)
  int j; // number of events read
  std::string path;
};
static int C;
// kind 0: a new variable between the previous and the next event (unbounded after
// the last one); 1: the next event, at a known time. This is the only order in
// which the matcher introduces variables: never before an earlier one.
struct Step { int kind; int g1, g2; int resets; };
static std::vector<Constraint> guardsAll; // index 0 is "none"
static std::string gstr(int g) {
  if (!g) return "";
  char b[32];
  static const char *n[] = {"<", "<=", ">=", ">"};
  snprintf(b, sizeof b, " c%d%s%d", guardsAll[g].x, n[(int)guardsAll[g].odr], guardsAll[g].c);
  return b;
}
static std::string stepStr(const Step &s) {
  std::string r = std::string(s.kind == 0 ? "new" : "event") + gstr(s.g1) + gstr(s.g2);
  for (int c = 0; c < C; c++) if (s.resets >> c & 1) r += " c" + std::to_string(c) + ":=0";
  return r;
}
static void modelGuard(Model &m, int x, const Constraint &g, std::pair<bool, int> r) {
  int y = r.first ? 0 : r.second, off = r.first ? r.second : 0;
  switch (g.odr) {
  case Constraint::Order::lt: m.con(x, y, mk(g.c + off, false)); break;
  case Constraint::Order::le: m.con(x, y, mk(g.c + off, true)); break;
  case Constraint::Order::gt: m.con(y, x, mk(-g.c - off, false)); break;
  case Constraint::Order::ge: m.con(y, x, mk(-g.c - off, true)); break;
  }
}
static bool infeasibleKnown(const Constraint &g, int t, int r) { return !g.satisfy(t - r); }

// the answer zone as a closed matrix of integers
static bool ansMatrix(const Zone &a, std::vector<B> &out) {
  Model m;
  for (int i = 0; i < 3; i++) m.grow();
  if (a.value.cols() != 3) return false;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i != j) m.at(i, j) = std::isinf(a.value(i, j).first) ? INF : mk((int)a.value(i, j).first, a.value(i, j).second);
  m.con(0, 1, 1); m.con(0, 2, 1);
  bool ok = m.close();
  out = m.d;
  return ok;
}

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  C = 1;
  for (auto &a : o.rest) if (a == "2") C = 2;
  int depth = C == 1 ? (th ? 5 : 4) : (th ? 4 : 3);
  guardsAll.push_back({});
  for (int x = 0; x < C; x++)
    for (int c = 1; c <= 2; c++)
      for (auto od : {Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge, Constraint::Order::gt}) guardsAll.push_back(Constraint{(ClockVariables)x, od, c});
  std::vector<Step> steps;
  int G = guardsAll.size();
  std::vector<std::pair<int, int>> gp;
  for (int g = 0; g < G; g++) gp.push_back({g, 0});
  for (int g = 1; g < G; g++) for (int h = g + 1; h < G; h++) { // pairs: lower with upper bound, or on two clocks
    bool lo1 = guardsAll[g].odr == Constraint::Order::gt || guardsAll[g].odr == Constraint::Order::ge, lo2 = guardsAll[h].odr == Constraint::Order::gt || guardsAll[h].odr == Constraint::Order::ge;
    if (guardsAll[g].x == guardsAll[h].x ? lo1 != lo2 : (guardsAll[g].c == 1 && guardsAll[h].c == 1)) gp.push_back({g, h});
  }
  for (auto &p : gp)
    for (int r = 0; r < (1 << C); r++)
      for (int k = 0; k < 2; k++) steps.push_back({k, p.first, p.second, r});
  // logs (timestamps, starting with 0), and the event before which t lies
  std::vector<std::vector<int>> logs = {{0, 1, 2, 3, 4}, {0, 2, 3, 5}, {0, 1, 3, 4, 6}};
  std::vector<std::pair<int, int>> inits;
  for (int l = 0; l < (int)logs.size(); l++) for (int i = 1; i <= 2; i++) inits.push_back({l, i});
  const uint64_t n = inits.size() * steps.size();
  auto describe = [&](uint64_t i) { return "t before event " + std::to_string(inits[i % inits.size()].second) + " of log " + std::to_string(inits[i % inits.size()].first) + "; " + stepStr(steps[i / inits.size()]); };
  return runPool(o, n, [&](uint64_t idx) {
    uint64_t states = 0, trans = 0, nontriv = 0, merged = 0;
    bool bad = false;
    const auto &log = logs[inits[idx % inits.size()].first];
    const int i0 = inits[idx % inits.size()].second;
    Interval I{Bounds{(double)log[i0 - 1], true}, Bounds{(double)log[i0], false}};
    Node start{IntermediateZone(I), {}, {}, {0, 1}, 1, {}, i0, "t in [" + std::to_string(log[i0 - 1]) + "," + std::to_string(log[i0]) + ")"};
    start.rt.assign(C, RT(ClockVariables(1)));
    start.mrt.assign(C, {false, 1});
    start.m.grow(); start.m.grow();
    start.m.con(1, 0, mk((int)I.upperBound.first, I.upperBound.second));
    start.m.con(0, 1, mk(-(int)I.lowerBound.first, I.lowerBound.second));
    start.m.close();
    std::vector<Node> cur;
    cur.push_back(start);
    std::unordered_set<std::string> seen;
    for (int d = 0; d < depth && !bad; d++) {
      std::vector<Node> nxt;
      for (auto &nd : cur) {
        for (size_t k = 0; k < steps.size() && !bad; k++) {
          if (d == 0 && k != idx / inits.size()) continue;
          const Step &s = steps[k];
          if (s.kind == 1 && nd.j >= (int)log.size()) continue;
          const int lo = log[nd.j - 1], hi = nd.j < (int)log.size() ? log[nd.j] : -1;
          trans++;
          IntermediateZone z = nd.z;
          Model m = nd.m;
          std::vector<Constraint> gs;
          if (s.g1) gs.push_back(guardsAll[s.g1]);
          if (s.g2) gs.push_back(guardsAll[s.g2]);
          auto rt = nd.rt;
          auto mrt = nd.mrt;
          auto map = nd.map;
          int newest = nd.newest;
          bool want = true;
          ClockVariables nv = 0;
          if (s.kind == 0) {
            nv = z.alloc(hi < 0 ? std::pair<double, bool>{std::numeric_limits<double>::infinity(), false} : std::pair<double, bool>{(double)hi, true},
                         lo ? std::pair<double, bool>{-(double)lo, false} : std::pair<double, bool>{0.0, true});
            m.grow();
            int mv = m.n - 1;
            if (hi >= 0) m.con(mv, 0, mk(hi, true));
            m.con(0, mv, lo ? mk(-lo, false) : 1);
            m.con(newest, mv, 1);
            newest = mv;
            if (nv >= map.size()) map.resize(nv + 1, -1);
            map[nv] = mv;
            z.tighten(gs, rt);
            for (auto &g : gs) modelGuard(m, newest, g, mrt[g.x]);
          } else {
            z.tighten(gs, rt, (double)hi);
            for (auto &g : gs) {
              auto r = mrt[g.x];
              if (r.first) want = want && !infeasibleKnown(g, hi, r.second);
              else switch (g.odr) { // hi - x ~ c
                case Constraint::Order::lt: m.con(0, r.second, mk(g.c - hi, false)); break;
                case Constraint::Order::le: m.con(0, r.second, mk(g.c - hi, true)); break;
                case Constraint::Order::gt: m.con(r.second, 0, mk(hi - g.c, false)); break;
                case Constraint::Order::ge: m.con(r.second, 0, mk(hi - g.c, true)); break;
                }
            }
          }
          want = m.close() && want;
          bool sat = z.isSatisfiableCanonized();
          std::string path = nd.path + "; " + stepStr(s) + (s.kind ? " at " : " in ") + (s.kind ? std::to_string(hi) : "(" + std::to_string(lo) + "," + (hi < 0 ? "inf)" : std::to_string(hi) + "]"));
          if (sat != want) { bad = true; fail(idx, "satisfiable", path, std::string("reported ") + (sat ? "satisfiable" : "unsatisfiable")); break; }
          if (!sat) continue;
          nontriv++;
          if (newest != 1) {
            Zone a;
            z.toAns(a);
            std::vector<B> got, exp;
            Model p;
            for (int i = 0; i < 3; i++) p.grow();
            int v[3] = {0, 1, newest};
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.at(i, j) = m.at(v[i], v[j]);
            p.con(0, 1, 1); p.con(0, 2, 1);
            p.close();
            exp = p.d;
            bool ok = ansMatrix(a, got);
            if (!ok || got != exp) { bad = true; fail(idx, "answer", path, "the extracted answer is not the projection of the constraints"); break; }
          }
          // resets, then forgetting
          for (int c = 0; c < C; c++)
            if (s.resets >> c & 1) {
              if (s.kind == 0) { rt[c] = nv; mrt[c] = {false, newest}; }
              else { rt[c] = (double)hi; mrt[c] = {true, hi}; }
            }
          z.update(rt);
          // keep only live model variables: 0, 1, newest and those in reset times
          std::set<int> liveSet = {0, 1, newest};
          for (auto &r : mrt) if (!r.first) liveSet.insert(r.second);
          std::vector<int> live(liveSet.begin(), liveSet.end()), inv(m.n, -1);
          Model q;
          for (size_t i = 0; i < live.size(); i++) { q.grow(); inv[live[i]] = i; }
          for (size_t i = 0; i < live.size(); i++) for (size_t j = 0; j < live.size(); j++) q.at(i, j) = m.at(live[i], live[j]);
          for (int &x : map) x = x >= 0 && inv[x] >= 0 ? inv[x] : -1;
          for (auto &r : mrt) if (!r.first) r.second = inv[r.second];
          newest = inv[newest];
          std::string key;
          for (B b : q.d) key += std::to_string(b) + ",";
          key += "|" + std::to_string(nd.j + s.kind) + "|" + std::to_string(newest) + "|" + std::to_string(z.newestClock) + (z.useInterval ? "I" : "Z");
          for (auto &i : z.intervals) key += std::to_string(i.lowerBound.first) + (i.lowerBound.second ? "c" : "o") + std::to_string(i.upperBound.first) + (i.upperBound.second ? "c" : "o");
          if (!z.useInterval) for (int i = 0; i < z.value.size(); i++) key += std::to_string(z.value.data()[i].first) + (z.value.data()[i].second ? "c" : "o");
          for (auto &r : mrt) key += std::string(r.first ? "K" : "V") + std::to_string(r.second);
          for (auto &r : rt) { if (auto c = boost::get<ClockVariables>(&r)) key += "v" + std::to_string(*c); }
          if (!seen.insert(key).second) { merged++; continue; }
          states++;
          if (d + 1 < depth) nxt.push_back(Node{z, rt, q, map, newest, mrt, nd.j + s.kind, path});
        }
        if (bad) break;
      }
      cur.swap(nxt);
    }
    count(STATES, states); count(TRANSITIONS, trans); count(TRACES, trans); count(EVALS, trans); count(NONTRIVIAL, nontriv);
    if (idx % 61 == 0) sample(describe(idx) + ": " + std::to_string(states) + " distinct zones");
  }, describe);
}
