// Online matching: the matchers run on a container that watches every access and
// decides what the next event is only when it is asked for - by forking, once for
// every event and once for the end of the log, so that every log up to a length is
// explored. For every pattern:
//  - no event is used after its release or before it was fetched, releases only
//    go forward, and when a match is reported everything but the event before
//    its beginning and later ones has been released;
//  - a match is reported before the log is read further than its end, the length
//    of a shortest match, and what earlier beginnings needed;
//  - what is reported before event k is read, and the matches that end by then,
//    are the same for every continuation of the first k events;
//  - streaming through the real log reader gives what the whole log gives.
#include "match_families.hh"
#include "impl.hh"
#include "regions.hh"
#include <sys/prctl.h>
using namespace vp;
static Mode mode = DOLLAR;
struct Watch {
  Word w;             // the events decided so far
  bool open = false;  // more events or the end may still be chosen
  size_t front = 0, loaded = 0, asked = 0; // asked: 1 + the last position whose existence was asked
  bool met = false;
  std::string bad;
  std::vector<size_t> pushAsked, pushFront;
};
static Watch *watch;
static void explore(); // decides about the next position, in as many processes as there are choices
struct SpyDeque {
  using value_type = std::pair<Alphabet, double>;
  SpyDeque(FILE *, bool) {}
  value_type operator[](size_t n) {
    Watch &s = *watch;
    if (n < s.front || n >= s.loaded) {
      if (s.bad.empty()) s.bad = "event " + std::to_string(n) + " used with the front at " + std::to_string(s.front) + " and " + std::to_string(s.loaded) + " fetched";
      if (n >= s.w.size()) return {0, 0};
    }
    return {(Alphabet)s.w[n].a, (double)s.w[n].t};
  }
  value_type at(size_t n) { return (*this)[n]; }
  size_t size() const { return watch->met ? watch->w.size() : std::numeric_limits<size_t>::max(); }
  void ask(size_t n) { // position n is read
    Watch &s = *watch;
    while (s.open && n >= s.w.size()) explore();
    s.asked = std::max(s.asked, std::min(n, s.w.size()) + 1);
    s.loaded = std::max(s.loaded, std::min(n + 1, s.w.size()));
    if (n >= s.w.size()) s.met = true;
  }
  void setFront(size_t n) {
    Watch &s = *watch;
    if (n < s.front && s.bad.empty()) s.bad = "release of " + std::to_string(n) + " after release of " + std::to_string(s.front);
    if (n > 0) ask(n - 1);
    s.front = std::max(s.front, n);
  }
  bool fetch(size_t n) {
    Watch &s = *watch;
    if (n < s.front) { if (s.bad.empty()) s.bad = "event " + std::to_string(n) + " asked for after its release (front " + std::to_string(s.front) + ")"; return false; }
    ask(n);
    return n < s.w.size();
  }
};
using SpyWord = WordContainer<SpyDeque>;
struct SpyZones : std::vector<Zone> {
  void push_back(const Zone &z) {
    std::vector<Zone>::push_back(z);
    watch->pushAsked.push_back(watch->asked);
    watch->pushFront.push_back(watch->front);
  }
};
using SpyAns = AnsContainer<SpyZones>;
struct Ans : SpyAns { SpyZones &zones() { return vec; } };
template <class W, class A> static void match(W w, const TimedAutomaton &R, A &ans) {
  if (mode == DOLLAR) monaaDollar(w, R, ans);
  else if (mode == NOT_NEC) monaaNotNecessaryDollar(w, R, ans);
  else monaa(w, R, ans);
}
// the same log through the real reader
static void runReader(const TimedAutomaton &R, const Word &w, bool binary, std::vector<Zone> &out) {
  std::string s;
  for (auto &e : w) {
    if (binary) { double d = e.t; char b[9]; b[0] = e.a; memcpy(b + 1, &d, 8); s.append(b, 9); }
    else s += std::string(1, e.a) + " " + std::to_string(e.t) + "\n";
  }
  FILE *f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void *)s.data(), s.size(), "r");
  AnsVec<Zone> ans;
  match<WordLazyDeque>(WordLazyDeque(f, binary), R, ans);
  fclose(f);
  out.assign(ans.begin(), ans.end());
}
static bool same(const Zone &a, const Zone &b) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && a.value(i, j) != b.value(i, j)) return false;
  return true;
}
// The least number of events of a match, or -1.
static int shortest(const TA &A) {
  Regions R(A);
  std::set<char> al;
  for (auto &e : A.e) if (e.a != '$' || mode == SIGNAL) al.insert(e.a);
  auto level = R.initial();
  auto close = [&] { // under unobservable transitions
    for (;;) {
      auto more = R.post(level, 0);
      more.insert(more.end(), level.begin(), level.end());
      Regions::norm(more);
      if (more == level) return;
      level = more;
    }
  };
  std::set<std::vector<Regions::C>> seen;
  for (int k = 0; close(), seen.insert(level).second && !level.empty(); k++) {
    if (k && mode != DOLLAR) for (auto &c : level) if (A.acc[c.s]) return k;
    if (mode != SIGNAL) for (auto &c : R.post(level, '$')) if (A.acc[c.s]) return k;
    std::vector<Regions::C> nxt;
    for (char a : al) for (auto &c : R.post(level, a)) nxt.push_back(c);
    Regions::norm(nxt);
    level = nxt;
  }
  return -1;
}
// last[i]: the first position after whose event no run begun in segment i is alive
// (with unobservable transitions, the clocks are ignored: at least that position)
static std::vector<size_t> aliveUntimed(const TA &A, const Word &w) {
  std::vector<size_t> L;
  auto close = [&](std::set<int> &S) {
    for (size_t k = 0; k < A.e.size(); k++)
      for (auto &e : A.e) if (e.a == 0 && S.count(e.s)) S.insert(e.d);
  };
  for (size_t i = 0; i <= w.size(); i++) {
    std::set<int> S(A.init.begin(), A.init.end()), N;
    size_t j = i;
    for (; j < w.size(); j++, S = N) {
      close(S);
      N.clear();
      for (auto &e : A.e) if (e.a == w[j].a && S.count(e.s)) N.insert(e.d);
      if (N.empty()) break;
    }
    L.push_back(j);
  }
  return L;
}
static std::vector<size_t> alive(const TA &A, const Word &w) {
  std::vector<std::vector<const E *>> edges(A.n);
  for (auto &e : A.e) edges[e.s].push_back(&e);
  std::vector<size_t> L;
  for (size_t i = 0; i <= w.size(); i++) {
    size_t last = i;
    if (i < w.size())
      for (int t = i ? 4 * w[i - 1].t : 0; t < 4 * w[i].t; t++) {
        std::vector<Cfg> cur, nxt;
        for (int s : A.init) cur.push_back(Cfg(s, t));
        size_t j = i;
        for (; j < w.size(); j++) {
          nxt.clear();
          for (auto &c : cur)
            for (auto k : edges[c.s])
              if (k->a == w[j].a) {
                bool ok = true;
                for (auto &g : k->g) ok = ok && sat(4 * w[j].t - c.rt[g.x], g);
                if (!ok) continue;
                Cfg d = c;
                d.s = k->d;
                for (int x : k->r) d.rt[x] = 4 * w[j].t;
                nxt.push_back(d);
              }
          std::sort(nxt.begin(), nxt.end());
          nxt.erase(std::unique(nxt.begin(), nxt.end()), nxt.end());
          cur.swap(nxt);
          if (cur.empty()) break;
        }
        last = std::max(last, j);
      }
    L.push_back(last);
  }
  return L;
}
static Alpha al{"ab", {1, 2}};
struct Case { TA A; TimedAutomaton R; bool eps; int m; int tail; };
static std::string inStr(const Case &k, const Word &w) { return k.A.str() + " on " + wordStr(w); }
// --- exploration
static Case *cs;
static uint64_t caseNo;
static int maxLen;
struct Mem { uint64_t h[16]; uint64_t leaves; int stop; }; // h[d]: hash of the matches ending by event d of the current log
static Mem *mem;
static void explore() {
  Watch &s = *watch;
  int d = (int)s.w.size();
  mem->h[d] = 0;
  if (d == maxLen) { s.open = false; return; }
  for (int c = 0; c <= al.size() && !mem->stop; c++) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(77); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (c == 0) s.open = false;
      else s.w.push_back({al.letters[(c - 1) % al.letters.size()], (d ? s.w.back().t : 0) + al.gaps[(c - 1) / al.letters.size()]});
      phase(wordStr(s.w));
      count(TRANSITIONS);
      return;
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); // passed on to the pool
    kill(getpid(), WTERMSIG(st));
    pause();
  }
  _exit(0);
}
// everything about one complete log
static void leaf(const std::vector<Zone> &zones) {
  Watch &r = *watch;
  const Case &k = *cs;
  const uint64_t c = caseNo;
  const Word &w = r.w;
  auto bad = [&](const std::string &kind, const std::string &why) { fail(c, kind, inStr(k, w), why); mem->stop = 1; };
  count(STATES, zones.size() + w.size()); count(TRACES); count(EVALS); count(MATCHES, zones.size());
  if (zones.size()) count(NONTRIVIAL);
  if (!r.bad.empty()) return bad("access", r.bad);
  const int tail = 4 * ((w.empty() ? 0 : w.back().t) + k.tail);
  PairSet all;
  std::vector<size_t> L;
  for (size_t z = 0; z < zones.size(); z++) {
    PairSet p;
    rasterise(zones[z], tail, p);
    if (p.empty()) continue;
    all.insert(all.end(), p.begin(), p.end());
    if (L.empty()) L = k.eps ? aliveUntimed(k.A, w) : alive(k.A, w);
    int t = p.front() >> 32, u = (uint32_t)p.front();
    size_t i = 0, j = 0;
    while (i < w.size() && 4 * w[i].t <= t) i++; // t is in segment i
    while (j < w.size() && 4 * w[j].t < u) j++;  // t' is in segment j
    size_t need = std::max({i, j, i + std::max(k.m, 1) - 1});
    for (size_t q = 0; q < i; q++) need = std::max(need, L[q] + 1); // one more is read before the next attempt
    if (k.m >= 0 && r.pushAsked[z] > std::min(need, w.size()) + 1)
      return bad("late", "a match in segments " + std::to_string(i) + " to " + std::to_string(j) + " is reported after reading event " + std::to_string(r.pushAsked[z] - 1) + ", needed: " + std::to_string(need));
    if (i > 0 && r.pushFront[z] + 1 < i)
      return bad("not-released", "a match beginning in segment " + std::to_string(i) + " is reported with the front still at " + std::to_string(r.pushFront[z]));
  }
  normalise(all);
  for (size_t d = 0; d <= w.size(); d++) {
    int lim = d ? 4 * w[d - 1].t : 0;
    uint64_t h = 1469598103934665603ull;
    for (auto x : all) if ((int)(uint32_t)x <= lim) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
    if (!h) h = 1;
    if (mem->h[d] == 0) mem->h[d] = h;
    if (mem->h[d] != h) return bad("future", "the matches ending by event " + std::to_string(d) + " differ from those of another log with the same first " + std::to_string(d) + " events");
  }
  if (mem->leaves++ % 509 == 40)
    for (int bin = 0; bin < 2; bin++) {
      std::vector<Zone> z;
      runReader(k.R, w, bin, z);
      count(TRACES);
      bool eq = z.size() == zones.size();
      for (size_t x = 0; eq && x < z.size(); x++) eq = same(z[x], zones[x]);
      if (!eq) return bad("reader", std::string("the real reader (") + (bin ? "binary" : "ASCII") + ") gives " + std::to_string(z.size()) + " zones instead of these " + std::to_string(zones.size()) + ", or other ones");
    }
}
static void run(const TimedAutomaton &R) { // in a process of its own
  watch = new Watch;
  watch->open = true;
  Ans *ans = new Ans;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) {
    vpExitArmed = 0;
    if (watch->asked) fail(caseNo, "exit", inStr(*cs, watch->w), "stops with " + std::to_string(vpExitCode) + " having seen this log");
    _exit(0); // an empty language
  }
  match<SpyWord>(SpyWord(nullptr, false), R, *ans);
  vpExitArmed = 0;
  while (watch->open) explore(); // the rest of the log is not looked at
  leaf(ans->zones());
  _exit(0);
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  for (auto &a : o.rest) {
    if (a == "signal") mode = SIGNAL;
    if (a == "notnec") mode = NOT_NEC;
  }
  bool th = o.tier == "thorough";
  auto fs = smallFamilies(mode);
  // every member of small families, every s-th of others; the longer the log, the sparser
  struct Item { int f; uint64_t off; int len; };
  std::vector<Item> items;
  for (size_t f = 0; f < fs.size(); f++) {
    uint64_t step = std::max<uint64_t>(1, fs[f].size / (th ? 2500 : 200));
    if (step > 1 && step % 2 == 0) step++;
    uint64_t n = 0;
    for (uint64_t i = 0; i < fs[f].size; i += step, n++) items.push_back({(int)f, i, (n % 64 == 0 ? 2 : n % 8 == 0) + (th ? 4 : 3)});
    if (o.only < 0) printf("%s %llu of %llu\n", fs[f].name.c_str(), (unsigned long long)n, (unsigned long long)fs[f].size);
  }
  return runPool(o, items.size(), [&](uint64_t c) {
    Case k;
    k.A = fs[items[c].f].make(items[c].off);
    k.R = toRepo(k.A);
    k.eps = false;
    for (auto &e : k.A.e) k.eps = k.eps || e.a == 0;
    k.m = shortest(k.A);
    k.tail = k.A.maxConst() + 2;
    cs = &k;
    caseNo = c;
    maxLen = items[c].len;
    if (!mem) mem = (Mem *)mmap(nullptr, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(mem, 0, sizeof *mem);
    pid_t p = fork();
    if (p < 0) _exit(77);
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run(k.R); }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { kill(getpid(), WTERMSIG(st)); pause(); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (c % 500 == 0) sample(k.A.str());
  }, [&](uint64_t c) { return fs[items[c].f].make(items[c].off).str(); });
}
