// TRE -> TA: for every expression up to a size, the automaton built by the real
// parser and compiler accepts exactly the timed words in the expression's
// denotation, for every timed word up to a length.
#include "pool.hh"
#include "tre.hh"
#include "monaa/tre_driver.hh"
#include "fromrepo.hh"
#include "monaa/timed_automaton_parser.hh"
#include <sstream>
using namespace vp;

static TreGen gen;
// Long expressions, with the words they spell: the words at most one edit away are compared.
struct Long { TreP t; std::vector<std::string> words; };
static const Iv *mkIv(int lo, bool loC, int hi, bool hiC) {
  static std::vector<std::unique_ptr<std::pair<Iv, std::string>>> keep;
  keep.push_back(std::make_unique<std::pair<Iv, std::string>>());
  auto &k = *keep.back();
  k.second = std::string(loC ? "[" : "(") + std::to_string(lo) + "," + std::to_string(hi) + (hiC ? "]" : ")");
  k.first = Iv{lo, loC, hi, hiC, k.second.c_str()};
  return &k.first;
}
static std::vector<Long> longOnes(bool th) {
  std::vector<Long> out;
  auto word = [](const std::string &w, bool left) {
    TreP t = tAtom(left ? w[0] : w.back());
    for (size_t i = 1; i < w.size(); i++) t = left ? tBin(Tre::CAT, t, tAtom(w[i])) : tBin(Tre::CAT, tAtom(w[w.size() - 1 - i]), t);
    return t;
  };
  auto letters = [](int n, int shape) {
    std::string w;
    for (int i = 0; i < n; i++) w += shape == 0 ? 'a' : shape == 1 ? "ab"[i % 2] : "aab"[i % 3];
    if (shape == 3) w.back() = 'b';
    return w;
  };
  for (int n = 4; n <= (th ? 14 : 12); n += th ? 1 : 4)
    for (int shape = 0; shape < 3; shape++) {
      std::string w = letters(n, shape);
      for (int left = 0; left < 2; left++) {
        TreP t = word(w, left);
        out.push_back({t, {w}});
        out.push_back({tUn(Tre::PLUS, t), {w, w + w}});
        out.push_back({tUn(Tre::STAR, t), {"", w, w + w}});
        for (auto iv : {mkIv(0, true, n, false), mkIv(n, true, n, true), mkIv(n, false, n + 2, true)}) {
          out.push_back({tUn(Tre::WITHIN, t, iv), {w}});
          out.push_back({tUn(Tre::WITHIN, tUn(Tre::PLUS, t), iv), {w, w + w}});
        }
        if (left)
          for (int m = 1; m <= 9; m += th ? 1 : 2) {
            std::string v = letters(m, (shape + 1) % 4);
            TreP u = word(v, false), ui = tUn(Tre::WITHIN, u, mkIv(m - 1, false, m, true)), ti = tUn(Tre::WITHIN, t, mkIv(n, true, n + 1, false));
            out.push_back({tBin(Tre::CAT, ti, ui), {w + v}});
            out.push_back({tBin(Tre::CAT, tUn(Tre::PLUS, ui), t), {v + w, v + v + w}});
            out.push_back({tBin(Tre::CAT, tUn(Tre::STAR, t), ui), {v, w + v}});
            out.push_back({tBin(Tre::OR, ti, ui), {w, v}});
            out.push_back({tUn(Tre::PLUS, tBin(Tre::OR, ti, ui)), {w, v, w + v, v + w, v + v}});
            out.push_back({tBin(Tre::CAT, tBin(Tre::OR, t, ui), tBin(Tre::OR, u, ti)), {w + v, v + w, w + w, v + v}});
            if (n * m <= 40) out.push_back({tBin(Tre::AND, tUn(Tre::PLUS, ti), tBin(Tre::CAT, tUn(Tre::STAR, t), tUn(Tre::PLUS, ui))), {w, v, w + v, w + w}});
          }
      }
    }
  for (int k = 2; k <= 8; k++) // wide unions
    for (int len = 1; len <= 3; len++) {
      TreP t;
      Long l;
      for (int i = 0; i < k && i < 1 << len; i++) {
        std::string w;
        for (int b = 0; b < len; b++) w += "ab"[i >> b & 1];
        TreP u = tUn(Tre::WITHIN, word(w, i % 2), mkIv(i % 3, true, i % 3 + len, i % 2));
        t = t ? (i % 3 ? tBin(Tre::OR, t, u) : tBin(Tre::OR, u, t)) : u;
        l.words.push_back(w);
      }
      l.t = t;
      out.push_back(l);
      l.t = tUn(Tre::PLUS, t);
      l.words.push_back(l.words[0] + l.words.back());
      out.push_back(l);
    }
  return out;
}
static std::vector<std::string> edits(const std::vector<std::string> &ws) {
  std::set<std::string> r;
  for (auto &w : ws) {
    r.insert(w);
    for (size_t i = 0; i <= w.size(); i++) {
      if (i < w.size()) {
        std::string x = w;
        x[i] = x[i] == 'a' ? 'b' : 'a';
        r.insert(x);
        r.insert(w.substr(0, i) + w.substr(i + 1));
      }
      for (const char *c : {"a", "b"}) r.insert(w.substr(0, i) + c + w.substr(i));
    }
  }
  return {r.begin(), r.end()};
}
static std::vector<TreP> all;

int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  gen.letters = "ab";
  static const std::vector<Iv> full = {
      {2, false, 4, false, "(2,4)"}, {2, true, 4, true, "[2,4]"}, {0, true, 2, false, "<2"}, {2, false, -1, false, ">2"},
      {0, true, 2, true, "<=2"}, {2, true, -1, false, ">=2"}, {2, true, 2, true, "=2"}, {2, true, 4, false, "[2,4)"},
      {2, false, 4, true, "(2,4]"}, {0, true, 4, true, "[0,4]"},
      {0, false, 2, false, "(0,2)"}, {0, false, -1, false, ">0"}, {0, true, 0, true, "=0"}, {1, true, 5, false, "[1,5)"}};
  const size_t ten = 10;
  // size <= 2 with every interval form; size 3 with fewer; size 4 with two
  auto addAll = [&](size_t nIv, int from, int to, bool star) {
    TreGen g;
    g.letters = "ab";
    g.star = star;
    g.ivs.assign(full.begin(), full.begin() + nIv);
    static std::vector<std::shared_ptr<TreGen>> keep;
    auto p = std::make_shared<TreGen>(g);
    p->build(to);
    keep.push_back(p);
    for (int k = from; k <= to; k++) all.insert(all.end(), p->by[k].begin(), p->by[k].end());
  };
  bool longer = false; // long expressions
  for (auto &a : o.rest) if (a == "long") longer = true;
  std::vector<Long> ls;
  if (longer) {
    ls = longOnes(th);
    for (auto &l : ls) all.push_back(l.t);
  } else
    addAll(full.size(), 0, 2, true);
  bool print = false; // go through the printed form of the automaton
  for (auto &a : o.rest) if (a == "print") print = true;
  bool small = false; // trees only: what the parser makes of a fully parenthesised text
  for (auto &a : o.rest) if (a == "trees") small = true;
  if (longer) small = true;
  else if (!small || th) addAll(th ? full.size() : ten, 3, 3, true);
  if (!small) addAll(print ? 1 : th ? 5 : 2, 4, 4, true);
  int L = th && !small && !print ? 5 : print && !th ? 3 : 4;
  std::vector<int> gaps = {1, 2, 3};
  return runPool(o, (all.size() + 15) / 16, [&](uint64_t chunk) {
    for (uint64_t i = chunk * 16; i < std::min<uint64_t>(all.size(), chunk * 16 + 16); i++) {
      const TreP &t = all[i];
      std::string text = treStr(t);
      phase(text);
      std::stringstream ss(text);
      TREDriver drv;
      if (!drv.parse(ss)) { fail(chunk, "parse", text, "a well-formed expression was rejected"); continue; }
      TimedAutomaton R;
      drv.getResult()->toEventTA(R);
      std::stringstream dot;
      TimedAutomaton back;
      if (print) {
        dot << R;
        BoostTimedAutomaton B;
        try { parseBoostTA(dot, B); } catch (const std::exception &e) { fail(chunk, "unreadable", text, std::string(e.what()) + " in " + dot.str()); continue; }
        convBoostTA(B, back);
        R = back; // the states are shared
      }
      std::string err;
      TA A = fromRepo(R, err);
      if (!err.empty()) { fail(chunk, "malformed", text, err); continue; }
      TaRunner run(A);
      if (longer) {
        uint64_t words = 0, acc = 0, trans = 0;
        bool bad = false;
        for (auto &x : edits(ls[i].words))
          for (int slow = -2; slow < (int)x.size() && !bad; slow++) { // all gaps 2, all 1, one 2
            TreChart chart(t, (int)x.size());
            chart.init(0);
            auto c = run.initial(0);
            Word w;
            int time = 0;
            for (int k = 0; k < (int)x.size(); k++) {
              time += slow == -2 || k == slow ? 2 : 1;
              chart.push(x[k], 4 * time);
              w.push_back({x[k], time});
              c = run.step(c, x[k], 4 * time);
              trans++;
            }
            words++;
            bool want = chart.accepts(), got = run.accepting(c);
            acc += want;
            if (want != got) {
              bad = true;
              fail(chunk, want ? "rejects" : "accepts", text + " on " + wordStr(w),
                   std::string("the expression ") + (want ? "contains" : "does not contain") + " the word, the automaton " + (got ? "accepts" : "rejects"));
            }
          }
        count(STATES, words); count(TRANSITIONS, trans); count(TRACES, words); count(EVALS);
        count(MATCHES, acc);
        if (acc) count(NONTRIVIAL);
        if (i % 503 == 0) sample(text + ": " + std::to_string(words) + " words, " + std::to_string(acc) + " accepted, " + std::to_string(A.n) + " states");
        continue;
      }
      TreChart chart(t, L);
      chart.init(0);
      std::vector<Ev> w;
      uint64_t states = 0, trans = 0, acc = 0;
      bool bad = false;
      std::function<void(const std::vector<BigCfg> &, int)> dfs = [&](const std::vector<BigCfg> &c, int time) {
        states++;
        bool want = chart.accepts(), got = run.accepting(c);
        acc += want;
        if (want != got) {
          bad = true;
          fail(chunk, want ? "rejects" : "accepts", text + " on " + wordStr(w),
               std::string("the expression ") + (want ? "contains" : "does not contain") + " the word, the automaton " + (got ? "accepts" : "rejects"));
          return;
        }
        if ((int)w.size() == L) return;
        for (int g : gaps)
          for (char a : gen.letters) {
            if (bad) return;
            trans++;
            chart.push(a, 4 * (time + g));
            w.push_back({a, time + g});
            dfs(run.step(c, a, 4 * (time + g)), time + g);
            w.pop_back();
            chart.pop();
          }
      };
      dfs(run.initial(0), 0);
      count(STATES, states); count(TRANSITIONS, trans); count(TRACES, states); count(EVALS);
      count(MATCHES, acc);
      if (acc) count(NONTRIVIAL);
      if (i % 2503 == 0) sample(text + ": " + std::to_string(states) + " words, " + std::to_string(acc) + " accepted, automaton " + A.str());
    }
  }, [&](uint64_t c) { return treStr(all[std::min<uint64_t>(all.size() - 1, c * 16)]) + " and following"; });
}
