// Interval arithmetic: every interval and pair of intervals with small bounds,
// and every sequence of operations on finite unions up to a depth, against sets
// of elementary pieces ({n} and (n,n+1)) up to a horizon.
#include "pool.hh"
#include "libmonaa/interval.hh"
#include <bitset>
#include <set>
#include <sstream>
#include <unordered_set>
using namespace vp;
static const int H = 40;                 // horizon; sums of non-negative numbers below H need only numbers below H
using Set = std::bitset<2 * H + 1>;      // 2n: the number n, 2n+1: the numbers strictly between n and n+1
static const double INFD = std::numeric_limits<double>::infinity();
struct Iv { double l; bool lc; double u; bool uc; };
static std::string str(const Interval &i) {
  std::ostringstream s;
  s << (i.lowerBound.second ? "[" : "(") << i.lowerBound.first << "," << i.upperBound.first << (i.upperBound.second ? "]" : ")");
  return s.str();
}
using Vec = std::vector<std::shared_ptr<Interval>>;
static std::string str(const Vec &v) {
  std::string s = "{";
  for (auto &i : v) s += str(*i);
  return s + "}";
}
static Set ref(const Interval &i) { // the definition, piece by piece
  Set s;
  for (int k = 0; k <= 2 * H; k++) {
    double x = k / 2.0;
    bool lo = i.lowerBound.second ? x >= i.lowerBound.first : x > i.lowerBound.first;
    bool hi = i.upperBound.second ? x <= i.upperBound.first : x < i.upperBound.first;
    s[k] = lo && hi;
  }
  return s;
}
static Set real(const Vec &v) { // what the real membership test says
  Set s;
  for (int k = 0; k <= 2 * H; k++) for (auto &i : v) if (i->contain(k / 2.0)) { s[k] = true; break; }
  return s;
}
static Set sum(const Set &a, const Set &b) {
  Set r;
  Set be, bo; // points and gaps of b
  for (int k = 0; k <= 2 * H; k++) (k % 2 ? bo : be)[k] = b[k];
  for (int k = 0; k <= 2 * H; k++) {
    if (!a[k]) continue;
    if (k % 2 == 0) r |= b << k;
    else { r |= be << k; r |= (bo << k) | (bo << (k - 1)) | (bo << (k + 1)); }
  }
  return r;
}
// (n,n+1) + (m,m+1) = (n+m, n+m+2), i.e. the pieces k+j-1, k+j, k+j+1 where k=2n+1, j=2m+1
static Set closure(const Set &a) {
  Set r = a;
  for (;;) { Set n = r | sum(r, a); if (n == r) return r; r = n; }
}
static std::string pieces(const Set &s) {
  std::string r;
  int n = 0;
  for (int k = 0; k <= 2 * H; k++) if (s[k]) {
    if (++n > 12) return r + "...";
    r += k % 2 ? " (" + std::to_string(k / 2) + "," + std::to_string(k / 2 + 1) + ")" : " " + std::to_string(k / 2);
  }
  return r;
}
static Vec copy(const Vec &v) { Vec r; for (auto &i : v) r.push_back(std::make_shared<Interval>(*i)); return r; }
// results of plus() that are known to be inexact or to fail are not used as operands of further operations
static bool plusIsExact(const Vec &v) {
  for (auto &i : v) {
    double l = i->lowerBound.first, u = i->upperBound.first;
    if (std::isinf(u)) continue;
    if (u <= l) return false;
    if (!i->lowerBound.second && !i->upperBound.second && l > 0 && std::fmod(l, u - l) == 0) return false;
  }
  return v.size() <= 4;
}
static std::vector<Interval> base;
static std::vector<Vec> starts;

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  const int B = 4;
  std::vector<Interval> big;
  for (int l = 0; l <= B + 1; l++) {
    for (int u = l; u <= B + 1; u++)
      for (int f = 0; f < 4; f++) {
        if (l == u && f != 3) continue;
        Interval i(Bounds(l, f & 1), Bounds(u, (f & 2) != 0));
        big.push_back(i);
        if (u <= (th ? 4 : 3)) base.push_back(i);
      }
    for (int f = 0; f < 2; f++) {
      Interval i(Bounds(l, f == 1), Bounds(INFD, false));
      big.push_back(i);
      if (l <= (th ? 4 : 3)) base.push_back(i);
    }
  }
  for (auto &i : base) starts.push_back({std::make_shared<Interval>(i)});
  for (size_t a = 0; a < base.size(); a++) for (size_t b = a; b < base.size(); b++) starts.push_back({std::make_shared<Interval>(base[a]), std::make_shared<Interval>(base[b])});
  // right operands of the operations on unions
  std::vector<Vec> rights;
  for (auto &i : base) rights.push_back({std::make_shared<Interval>(i)});
  std::vector<int> sel;
  for (size_t a = 0; a < base.size(); a += 3) sel.push_back(a);
  for (size_t a = 0; a < sel.size(); a++) for (size_t b = a + 1; b < sel.size(); b++) if ((a + b) % (th ? 2 : 5) == 0)
    rights.push_back({std::make_shared<Interval>(base[sel[a]]), std::make_shared<Interval>(base[sel[b]])});
  const int depth = th ? 3 : 2;
  if (o.only < 0) printf("intervals %zu, start unions %zu, right operands %zu\n", big.size(), starts.size(), rights.size());
  const uint64_t nBig = big.size();
  return runPool(o, nBig + starts.size(), [&](uint64_t c) {
    if (c < nBig) { // single operations on intervals
      const Interval &a = big[c];
      Vec va = {std::make_shared<Interval>(a)};
      phase(str(a));
      auto cmp = [&](const char *kind, const std::string &in, const Set &want, const Set &got) {
        count(TRANSITIONS); count(TRACES); count(EVALS);
        if (want.any()) count(NONTRIVIAL);
        if (want != got) fail(c, kind, in + " wrong at" + pieces(want ^ got), "should contain" + pieces(want) + ", contains" + pieces(got));
      };
      cmp("contain", str(a), ref(a), real(va));
      for (auto &b : big) {
        Interval r = a && b, s = a + b;
        cmp("and", str(a) + "&&" + str(b), ref(a) & ref(b), real({std::make_shared<Interval>(r)}));
        cmp("sum", str(a) + "+" + str(b), sum(ref(a), ref(b)), real({std::make_shared<Interval>(s)}));
        count(STATES, 2);
      }
      try {
        Vec p;
        Interval x = a;
        x.plus(p);
        cmp("plus", str(a) + "+", closure(ref(a)), real(p));
      } catch (const std::exception &e) {
        fail(c, "plus-fails", str(a) + "+", "no result (" + std::string(e.what()) + ")");
      }
      for (int k = 0; k <= 3; k++) { // the constructors
        cmp("ctor", "Interval(" + std::to_string(k) + ")", ref(Interval(Bounds(k, false), Bounds(INFD, false))), real({std::make_shared<Interval>(k)}));
        for (int m = k + 1; m <= 4; m++)
          cmp("ctor", "Interval(" + std::to_string(k) + "," + std::to_string(m) + ")", ref(Interval(Bounds(k, false), Bounds(m, false))), real({std::make_shared<Interval>(k, m)}));
      }
      cmp("ctor", "Interval()", ref(Interval(Bounds(0, true), Bounds(INFD, false))), real({std::make_shared<Interval>()}));
      return;
    }
    // sequences of operations on a union, breadth first
    struct N { Vec v; Set s; std::string how; };
    const Vec &st = starts[c - nBig];
    Set s0;
    for (auto &i : st) s0 |= ref(*i);
    std::vector<N> level = {{copy(st), s0, str(st)}};
    std::unordered_set<std::string> seen;
    uint64_t states = 1, trans = 0;
    for (int d = 0; d < depth && !level.empty(); d++) {
      std::vector<N> next;
      for (auto &n : level) {
        auto step = [&](const std::string &op, const Set &want, Vec &got) {
          trans++;
          Set g = real(got);
          if (g != want) {
            fail(c, "sequence", n.how + op + " wrong at" + pieces(want ^ g), "should contain" + pieces(want) + ", the union is " + str(got));
            return false;
          }
          if (d + 1 < depth && got.size() <= 6 && seen.insert(str(got)).second) { states++; next.push_back({copy(got), want, n.how + op}); }
          return true;
        };
        for (size_t k = 0; k < rights.size(); k++) {
          if (d > 0 && k % (th ? 7 : 3) != d % (th ? 7 : 3)) continue; // later operands: every third (seventh) one
          auto &r = rights[k];
          Set rs;
          for (auto &i : r) rs |= ref(*i);
          Vec x = copy(n.v);
          phase(n.how + " land " + str(r));
          land(x, r);
          if (!step(" land " + str(r), n.s & rs, x)) return;
          if (r.size() == 1) {
            Vec y = copy(n.v);
            land(y, *r[0]);
            if (!step(" land " + str(*r[0]), n.s & rs, y)) return;
          }
          Vec z = copy(n.v), rc = copy(r);
          z += rc;
          if (!step(" + " + str(r), sum(n.s, rs), z)) return;
          if (str(rc) != str(r)) { fail(c, "sequence", n.how + " + " + str(r), "the right operand was changed"); return; }
        }
        if (plusIsExact(n.v) && !n.v.empty()) {
          Vec x = copy(n.v);
          phase(n.how + " plus");
          plus(x);
          if (!step(" plus", closure(n.s), x)) return;
        }
      }
      level.swap(next);
    }
    count(STATES, states); count(TRANSITIONS, trans); count(TRACES, trans); count(EVALS, trans); count(NONTRIVIAL, states);
    if (c % 211 == 0) sample("sequences from " + str(st) + ": " + std::to_string(trans) + " operations, " + std::to_string(states) + " unions");
  }, [&](uint64_t c) { return c < nBig ? str(big[c]) : str(starts[c - nBig]); });
}
