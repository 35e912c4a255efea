// tre2ta and monaa as programs: expression -> DOT text -> matches, against the
// denotational oracle and against giving the expression directly.
#include "cli.hh"
#include "tre_oracle.hh"
using namespace vp;
static std::vector<TreP> all;
static const std::vector<Iv> full = {
    {2, false, 4, false, "(2,4)"}, {2, false, -1, false, "(>2)"}, {0, true, 2, true, "(<=2)"}, {2, true, 2, true, "(=2)"},
    {2, true, 4, true, "[2,4]"}, {0, true, 2, false, "(<2)"}, {2, true, -1, false, "(>=2)"}, {2, true, 4, false, "[2,4)"},
    {2, false, 4, true, "(2,4]"}, {0, true, 10, true, "[0,10]"}};
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  static TreGen g1, g2;
  g1.letters = "ab"; g1.ivs = full; g1.build(1);
  g2.letters = "ab"; g2.ivs.assign(full.begin(), full.begin() + 3); g2.build(2);
  TreP end = tAtom('$');
  auto shapes = [&](const TreP &x, int nIv) {
    all.push_back(tBin(Tre::CAT, x, end));
    for (int i = 0; i < nIv; i++) {
      all.push_back(tUn(Tre::WITHIN, tBin(Tre::CAT, x, end), &full[i]));
      all.push_back(tBin(Tre::CAT, x, tUn(Tre::WITHIN, end, &full[i])));
    }
  };
  all.push_back(end);
  for (auto &x : g1.by[0]) shapes(x, 10);
  for (auto &x : g1.by[1]) shapes(x, th ? 10 : 2);
  for (auto &x : g2.by[2]) shapes(x, th ? 3 : 0);
  if (o.only < 0) printf("expressions %zu\n", all.size());
  std::vector<Word> logs = {{}, {{'a', 1}}, {{'b', 2}, {'a', 4}}, {{'a', 2}, {'a', 3}}, {{'a', 1}, {'b', 3}, {'a', 5}}, {{'b', 1}, {'b', 4}, {'a', 6}}};
  const std::string monaa = envOr("VP_MONAA"), tre2ta = envOr("VP_TRE2TA");
  return runPool(o, all.size(), [&](uint64_t c) {
    const TreP &t = all[c];
    std::string text = treStr(t), d = tmpDir(), dot = d + "/t.dot", log = d + "/t.txt";
    phase(text);
    unlink(dot.c_str());
    // the three ways of giving the expression and the two of taking the result
    Res a = runCli({tre2ta, "-e", text}, "");
    if (a.status) { fail(c, "status", text, "tre2ta exits with " + std::to_string(a.status) + " " + a.err); return; }
    Res p = runCli({tre2ta, text}, ""), f = runCli({tre2ta, "-e", text, "-o", dot}, "");
    if (p.status || p.out != a.out) { fail(c, "sources", text, "tre2ta PATTERN differs from tre2ta -e PATTERN"); return; }
    if (f.status || !f.out.empty() || readFile(dot) != a.out) { fail(c, "output", text, "tre2ta -o FILE differs from standard output"); return; }
    int tail = treConst(t) + 2;
    for (size_t k = 0; k < logs.size(); k++) {
      const Word &w = logs[k];
      if (!th && k >= 2 && (k + c) % 2) continue;
      std::string txt;
      for (auto &e : w) txt += std::string(1, e.a) + " " + std::to_string(e.t) + "\n";
      writeFile(log, txt);
      PairSet want;
      uint64_t st = 0;
      treMatchNaive(t, w, tail, want, st);
      count(STATES, st); count(TRANSITIONS, st);
      if (!want.empty()) count(NONTRIVIAL);
      for (int how = 0; how < 2; how++) {
        Res r = how ? runCli({monaa, "-f", dot, "-i", log}, "") : runCli({monaa, "-e", text, "-i", log}, "");
        std::string in = text + (how ? " via tre2ta" : "") + " on " + wordStr(w);
        phase(in);
        count(TRACES); count(EVALS);
        if (r.status == 10 && want.empty()) continue; // an empty pattern
        if (r.status) { fail(c, "status", in, "monaa exits with " + std::to_string(r.status) + " " + r.err + (how ? a.out : "")); return; }
        std::vector<Block> bs;
        std::string why;
        if (!readBlocks(r.out, bs, why)) { fail(c, "format", in, why); return; }
        PairSet got;
        rasterBlocks(bs, 1, 0, 4 * ((w.empty() ? 0 : w.back().t) + tail), got);
        count(MATCHES, got.size());
        PairSet diff;
        if (want != got) {
          size_t miss = 0;
          for (auto x : want) miss += !std::binary_search(got.begin(), got.end(), x);
          fail(c, "mismatch", in, std::to_string(miss) + " of " + std::to_string(want.size()) + " missed, " + std::to_string(got.size()) + " reported on the grid; " + (how ? a.out : r.out.substr(0, 500)));
          return;
        }
      }
    }
    if (c % 50 == 0) sample(text + ": " + a.out);
  }, [&](uint64_t c) { return treStr(all[c]); });
}
