// Products: for every pair of automata of a family and every choice of initial
// and accepting states, the product accepts a timed word iff both do.
// Unobservable transitions are taken at half time units; the same discretised
// semantics is used for the factors and for the product, for which the product
// of the languages is exact.
#include "pool.hh"
#include "fromrepo.hh"
#include "impl.hh"
#include "libmonaa/intersection.hh"
using namespace vp;
struct Struct { TA A; };
static void closeEps(const TaRunner &run, std::vector<BigCfg> &c, int lo4, int hi4) {
  // configurations with the last time something happened, in half units
  std::set<std::pair<BigCfg, int>> all;
  std::vector<std::pair<BigCfg, int>> todo;
  for (auto &k : c) { all.insert({k, lo4}); todo.push_back({k, lo4}); }
  while (!todo.empty()) {
    auto k = todo.back();
    todo.pop_back();
    for (auto e : run.edges[k.first.s])
      if (e->a == 0)
        for (int u = k.second; u <= hi4; u += 2) {
          bool ok = true;
          for (auto &g : e->g) ok = ok && sat(u - k.first.rt[g.x], g);
          if (!ok) continue;
          auto d = k;
          d.first.s = e->d;
          for (int x : e->r) d.first.rt[x] = u;
          d.second = u;
          if (all.insert(d).second) todo.push_back(d);
        }
  }
  c.clear();
  for (auto &k : all) c.push_back(k.first);
  TaRunner::norm(c);
}
struct Words { std::vector<std::vector<Ev>> w; };
// for every word and every single initial state: the set of states reached
static std::vector<std::vector<uint32_t>> reach(const TA &A, const std::vector<std::vector<Ev>> &words, uint64_t &st, uint64_t &tr) {
  TaRunner run(A);
  bool eps = false;
  for (auto &e : A.e) eps = eps || e.a == 0;
  std::vector<std::vector<uint32_t>> R(words.size(), std::vector<uint32_t>(A.n, 0));
  for (int i = 0; i < A.n; i++) {
    // words are listed so that every proper prefix of a word comes earlier
    std::vector<std::vector<BigCfg>> memo;
    std::map<std::vector<std::pair<char, int>>, std::vector<BigCfg>> at;
    for (size_t w = 0; w < words.size(); w++) {
      std::vector<std::pair<char, int>> key;
      for (auto &e : words[w]) key.push_back({e.a, e.t});
      std::vector<BigCfg> c;
      if (key.empty()) c.push_back({i, std::vector<int>(A.clocks, 0)});
      else {
        auto pre = key;
        pre.pop_back();
        auto it = at.find(pre);
        if (it == at.end()) continue; // dead prefix
        c = it->second;
        if (eps) closeEps(run, c, pre.empty() ? 0 : 4 * pre.back().second, 4 * key.back().second);
        c = run.step(c, key.back().first, 4 * key.back().second);
        tr++;
      }
      if (c.empty()) continue;
      st += c.size();
      for (auto &k : c) R[w][i] |= 1u << k.s;
      at[key] = c;
    }
  }
  return R;
}
static std::vector<std::vector<Ev>> mkWords(const std::string &letters, const std::vector<int> &gaps, int len) {
  std::vector<std::vector<Ev>> v = {{}};
  size_t from = 0;
  for (int l = 1; l <= len; l++) {
    size_t to = v.size();
    for (size_t k = from; k < to; k++) for (char a : letters) for (int g : gaps) { auto w = v[k]; w.push_back({a, (w.empty() ? 0 : w.back().t) + g}); v.push_back(w); }
    from = to;
  }
  return v;
}
struct Fam { std::string name; std::vector<TA> left, right; int strideR; std::vector<std::vector<Ev>> words; };
static std::vector<TA> graphs(int n, const std::string &letters, const std::vector<std::vector<G>> &gs, const std::vector<std::vector<int>> &rs, int maxEdges, int clocks, int clockDecl, int stride) {
  std::vector<E> e;
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) for (char a : letters) for (auto &g : gs) for (auto &r : rs) e.push_back({s, a, d, g, r});
  std::vector<TA> out;
  TA base;
  base.n = n;
  base.acc.assign(n, 0);
  base.clocks = clockDecl;
  int ctr = 0;
  auto add = [&](const TA &A) { if (ctr++ % stride == 0) out.push_back(A); };
  add(base);
  for (size_t i = 0; i < e.size(); i++) {
    TA A = base;
    A.e.push_back(e[i]);
    add(A);
    if (maxEdges > 1) for (size_t j = i + 1; j < e.size(); j++) {
      TA B = A;
      B.e.push_back(e[j]);
      add(B);
      if (maxEdges > 2) for (size_t k = j + 1; k < e.size(); k++) { TA C = B; C.e.push_back(e[k]); add(C); }
    }
  }
  return out;
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  std::vector<Fam> fams;
  std::vector<std::vector<G>> g1 = {{}, {{0, LT, 2}}, {{0, GE, 2}}}, g2 = {{}, {{0, LE, 2}, {1, GT, 1}}, {{1, LT, 3}}};
  fams.push_back({"graphs with 2 states and <= 2 edges", graphs(2, "ab", g1, {{}, {0}}, 2, 1, 1, 1), graphs(2, "ab", g1, {{}, {0}}, 2, 1, 1, 1), th ? 7 : 31, mkWords("ab", {1, 2, 3}, 3)});
  std::string ae("a\0", 2);
  fams.push_back({"with unobservable transitions", graphs(2, ae, {{}, {{0, LT, 1}}, {{0, GT, 1}}}, {{}, {0}}, 2, 1, 1, 1), graphs(2, ae, {{}, {{0, LT, 2}}}, {{}, {0}}, 2, 1, 1, 1), th ? 17 : 101, mkWords("a", {1, 2}, 2)});
  fams.push_back({"two clocks times two clocks", graphs(2, "a", g2, {{}, {0}, {1}, {0, 1}}, 2, 2, 2, 1), graphs(2, "a", g2, {{}, {1}}, 2, 2, 2, 1), th ? 5 : 19, mkWords("a", {1, 2, 3}, 3)});
  fams.push_back({"no clock times one clock", graphs(2, "ab", {{}}, {{}}, 3, 0, 0, 1), graphs(2, "ab", g1, {{}, {0}}, 2, 1, 1, 3), th ? 3 : 11, mkWords("ab", {1, 2, 3}, 3)});
  fams.push_back({"one clock times no clock", graphs(2, "ab", g1, {{}, {0}}, 2, 1, 1, 3), graphs(2, "ab", {{}}, {{}}, 3, 0, 0, 1), th ? 3 : 11, mkWords("ab", {1, 2, 3}, 3)});
  fams.push_back({"3 states times 2 states", graphs(3, "ab", {{}, {{0, LT, 2}}}, {{}}, 3, 1, 1, th ? 3 : 7), graphs(2, "ab", {{}, {{0, GE, 2}}}, {{}, {0}}, 2, 1, 1, 1), th ? 29 : 229, mkWords("ab", {1, 2}, 3)});
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto &f : fams) { base.push_back(total); total += f.left.size(); if (o.only < 0) printf("%s: %zu x every %dth of %zu\n", f.name.c_str(), f.left.size(), f.strideR, f.right.size()); }
  auto locate = [&](uint64_t i, uint64_t &off) -> Fam & { size_t k = 0; while (k + 1 < fams.size() && i >= base[k + 1]) k++; off = i - base[k]; return fams[k]; };
  return runPool(o, total, [&](uint64_t c) {
    uint64_t off;
    Fam &f = locate(c, off);
    const TA &A = f.left[off];
    uint64_t st = 0, tr = 0;
    auto RA = reach(A, f.words, st, tr);
    // the pair with itself, then every stride-th right factor, shifted with the left one
    for (int64_t b = -1; b < (int64_t)f.right.size(); b = b < 0 ? (int64_t)(off % f.strideR) : b + f.strideR) {
      const TA &B = b < 0 ? A : f.right[b];
      phase(A.str() + " x " + B.str());
      auto RB = reach(B, f.words, st, tr);
      TA A1 = A, B1 = B;
      // start with everything initial and accepting, then re-select
      A1.acc.assign(A.n, 1); B1.acc.assign(B.n, 1);
      for (int i = 0; i < A.n; i++) A1.init.push_back(i);
      for (int i = 0; i < B.n; i++) B1.init.push_back(i);
      TimedAutomaton RAr = toRepo(A1), RBr = toRepo(B1), P;
      TimedAutomaton &in1 = RAr, &in2 = b < 0 ? RAr : RBr; // both arguments may be the same object
      boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> toI;
      intersectionTA(in1, in2, P, toI);
      std::string err;
      TA PA = fromRepo(P, err);
      std::string in = A.str() + " x " + B.str();
      if (!err.empty()) { fail(c, "malformed", in, err); continue; }
      if (PA.n > 30) { fail(c, "malformed", in, "too many states"); continue; }
      if (PA.clocks != A.clocks + B.clocks) { fail(c, "malformed", in, "the product has " + std::to_string(PA.clocks) + " clocks"); continue; }
      auto RP = reach(PA, f.words, st, tr);
      std::vector<std::shared_ptr<TAState>> sa = in1.states, sb = in2.states;
      std::unordered_map<const TAState *, int> id;
      for (size_t i = 0; i < P.states.size(); i++) id[P.states[i].get()] = (int)i;
      const int MA = 1 << A.n, MB = 1 << B.n;
      bool bad = false;
      for (int ia = 1; ia < MA && !bad; ia++)
        for (int fa = 0; fa < MA && !bad; fa++)
          for (int ib = 1; ib < (b < 0 ? 2 : MB) && !bad; ib++)
            for (int fb = 0; fb < (b < 0 ? 1 : MB) && !bad; fb++) {
              int jb = b < 0 ? ia : ib, gb = b < 0 ? fa : fb; // one object cannot have two selections
              if (th == false && (ia * 7 + fa * 3 + jb * 5 + gb + off) % 3) continue;
              auto select = [](TimedAutomaton &T, const std::vector<std::shared_ptr<TAState>> &s, int im, int fm) {
                T.initialStates.clear();
                for (size_t i = 0; i < s.size(); i++) { if (im >> i & 1) T.initialStates.push_back(s[i]); s[i]->isMatch = fm >> i & 1; }
              };
              select(in1, sa, ia, fa);
              if (b >= 0) select(in2, sb, jb, gb);
              // a fresh product on some selections, re-selection otherwise
              TimedAutomaton Q;
              boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> toQ;
              bool fresh = (ia + fa + jb + gb) % 5 == 0;
              if (fresh) intersectionTA(in1, in2, Q, toQ);
              else updateInitAccepting(in1, in2, P, toI);
              std::vector<std::vector<uint32_t>> RQ;
              uint32_t init = 0, acc = 0;
              if (fresh) {
                TA QA = fromRepo(Q, err);
                if (!err.empty()) { fail(c, "malformed", in, err); bad = true; break; }
                RQ = reach(QA, f.words, st, tr);
                for (int i : QA.init) init |= 1u << i;
                for (int i = 0; i < QA.n; i++) if (QA.acc[i]) acc |= 1u << i;
              } else {
                for (auto &s : P.initialStates) { if (!s || !id.count(s.get())) { fail(c, "malformed", in, "initial state outside the product"); bad = true; break; } init |= 1u << id[s.get()]; }
                for (size_t i = 0; i < P.states.size(); i++) if (P.states[i]->isMatch) acc |= 1u << i;
              }
              auto &R = fresh ? RQ : RP;
              for (size_t w = 0; w < f.words.size(); w++) {
                auto in_ = [&](const std::vector<uint32_t> &r, uint32_t i, uint32_t a) { for (size_t k = 0; k < r.size(); k++) if ((i >> k & 1) && (r[k] & a)) return true; return false; };
                bool want = in_(RA[w], ia, fa) && in_(RB[w], jb, gb), got = in_(R[w], init, acc);
                count(EVALS);
                if (want) count(NONTRIVIAL);
                if (want != got) {
                  fail(c, "language", in + " init " + std::to_string(ia) + "," + std::to_string(jb) + " acc " + std::to_string(fa) + "," + std::to_string(gb) + (fresh ? "" : " re-selected"),
                       wordStr(f.words[w]) + (got ? "accepted by the product only" : "accepted by both factors only"));
                  bad = true;
                  break;
                }
              }
              count(TRACES);
            }
    }
    count(STATES, st); count(TRANSITIONS, tr);
    if (off == 1) sample(f.name + ": " + A.str());
  }, [&](uint64_t c) { uint64_t off; Fam &f = locate(c, off); return f.left[off].str(); });
}
