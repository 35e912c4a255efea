// What the program prints: pattern file x log file x time scale x time shift,
// the printed blocks read as sets and compared with the explicit-state oracle.
#include "cli.hh"
#include "families.hh"
#include "impl.hh"
using namespace vp;
struct Scale { int perUnit; double shift; std::vector<int> gaps; };
// the pattern with constants scaled to ticks of 1/perUnit
static TA scaled(TA A, int s) { for (auto &e : A.e) for (auto &g : e.g) g.c *= s; return A; }
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  std::vector<Family> fs;
  auto G12 = guards1(0, {1, 2}), G1 = guards1(0, {1});
  fs.push_back(chain1(0, G12, guards1(0, {1, 2}), "ab"));
  fs.push_back(chain1(1, th ? G12 : G1, G12, "ab"));
  fs.push_back(chain1(2, G1, {{}, {{0, LE, 1}}, {{0, GT, 2}}}, "ab"));
  fs.push_back(unionChains(0, 1, {{}, {{0, GE, 1}}}, {{}, {{0, LT, 2}}}, "a"));
  fs.push_back(graph(2, 2, {{}, {{0, LT, 1}}}, {{}, {{0, GE, 1}}}, "a"));
  fs.push_back(chain2(2, {{}, {{0, LE, 2}}, {{1, GE, 1}}}, {{}, {{1, LT, 2}}}, {"ab"}));
  std::vector<Scale> sc = {{1, 0, {1, 2, 3}}, {2, 0, {1, 2, 5}}, {4, 0, {1, 4, 9}}, {8, 0, {1, 8, 17}}, {2, 1000, {1, 2, 5}}, {4, 1048576, {1, 4, 9}}, {2, 123456.5, {1, 2, 4}}, {16, 3, {1, 16}}};
  std::vector<std::string> words = {"", "a", "b", "ab", "aa", "ba", "abb", "aab"};
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto &f : fs) { base.push_back(total); total += f.size; if (o.only < 0) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.size); }
  auto locate = [&](uint64_t i, uint64_t &off) -> Family & { size_t k = 0; while (k + 1 < fs.size() && i >= base[k + 1]) k++; off = i - base[k]; return fs[k]; };
  const std::string exe = envOr("VP_MONAA");
  return runPool(o, total, [&](uint64_t c) {
    uint64_t off;
    Family &f = locate(c, off);
    TA A = f.make(off);
    std::string dot = tmpDir() + "/p.dot", log = tmpDir() + "/p.txt";
    writeFile(dot, A.dot());
    TimedAutomaton R = toRepo(A);
    for (size_t s = 0; s < sc.size(); s++) {
      auto &y = sc[s];
      TA W = scaled(A, y.perUnit);
      // logs: every letter word with the gaps rotated by the case number
      for (size_t w = 0; w < words.size(); w++) {
        if (!th && (w + s + c) % 6) continue;
        size_t combos = 1;
        for (size_t k = 0; k < words[w].size(); k++) combos *= y.gaps.size();
        for (size_t g = 0; g < combos; g++) {
          if (!th && combos > 3 && (g + c) % (combos / 3 + 1)) continue;
          Word lw;
          int t = 0;
          size_t gg = g;
          for (char a : words[w]) { t += y.gaps[gg % y.gaps.size()]; gg /= y.gaps.size(); lw.push_back({a, t}); }
          bool barrier = y.shift > 0; // an event of a foreign letter at the shift
          std::string text;
          char b[64];
          if (barrier) { snprintf(b, sizeof b, "z %.10g\n", y.shift); text += b; }
          for (auto &e : lw) { snprintf(b, sizeof b, "%c %.12g\n", e.a, y.shift + (double)e.t / y.perUnit); text += b; }
          writeFile(log, text);
          std::string in = A.str() + " on " + text;
          for (auto &ch : in) if (ch == '\n') ch = ' ';
          phase(in);
          PairSet want, got;
          OracleStats st;
          oracleMatch(W, lw, DOLLAR, W.maxConst() + 2, true, want, st);
          Res r = runCli({exe, "-f", dot, "-i", log}, "");
          count(STATES, st.states); count(TRANSITIONS, st.transitions); count(TRACES); count(EVALS); count(MATCHES, want.size());
          if (!want.empty()) count(NONTRIVIAL);
          if (r.status == 10 && want.empty()) continue;
          if (r.status) { fail(c, "status", in, "exit status " + std::to_string(r.status) + " " + r.err); break; }
          std::vector<Block> bs;
          std::string why;
          if (!readBlocks(r.out, bs, why)) { fail(c, "format", in, why + " in " + r.out.substr(0, 400)); break; }
          rasterBlocks(bs, y.perUnit, y.shift, 4 * ((lw.empty() ? 0 : lw.back().t) + W.maxConst() + 2), got);
          if (want != got) { fail(c, "printed", in, pairDiff(want, got) + " (in ticks of 1/" + std::to_string(y.perUnit) + ") printed: " + r.out.substr(0, 600)); break; }
          Res q = (c + g) % 5 ? Res() : runCli({exe, "-q", "-f", dot, "-i", log}, "");
          if (q.status || !q.out.empty()) { fail(c, "quiet", in, "with -q: status " + std::to_string(q.status) + ", output " + q.out.substr(0, 100)); break; }
        }
      }
    }
    if (off == 3) sample(A.str());
  }, [&](uint64_t i) { uint64_t off; Family &f = locate(i, off); return f.make(off).str(); });
}
