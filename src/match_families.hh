// The families of patterns the matchers are explored with, per mode.
#pragma once
#include "families.hh"
namespace vp {
static inline Family every(int n, Family f) { // thinned
  Family g = f;
  g.size = (f.size + n - 1) / n;
  g.make = [=](uint64_t i) { return f.make(i * n); };
  return g;
}
static inline std::vector<Family> familiesLib(const std::string &tier, Mode mode) {
  std::vector<Family> fs;
  Alpha ab{"ab", {1, 2, 3}};
  auto G24 = guards1(0, {2, 4}), G2 = guards1(0, {2});
  std::vector<Guard> few = {{}, {{0, LT, 2}}, {{0, GE, 2}}}, few5 = {{}, {{0, LT, 2}}, {{0, GT, 2}}, {{0, GE, 4}}, {{0, LE, 4}}};
  std::vector<Guard> two = {{}, {{0, LT, 2}}, {{0, GE, 2}}, {{1, LT, 4}}, {{1, GT, 4}}};
  bool th = tier == "thorough";
  auto add = [&](Family f) { f.alpha = ab; fs.push_back(f); };
  if (mode == SIGNAL) {
    add(finalLetter(chain1(0, G24, G24, "ab"), "ab"));
    add(finalLetter(chain1(1, G24, G24, "ab"), "ab"));
    add(finalLetter(chain1(2, th ? G24 : few5, few5, "ab"), "ab"));
    if (th) add(finalLetter(chain1(3, few, few5, "ab"), "ab"));
    add(finalLetter(chain2(2, th ? two : std::vector<Guard>{{}, {{0, LE, 2}}, {{1, GE, 4}}}, two, {"aa", "ab"}), "ab"));
    add(finalLetter(graph(2, 2, few, few5, "ab"), "ab"));
    add(finalLetter(graph(3, 3, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}, {{0, LT, 2}}, {{0, GT, 2}}}, "ab"), "a"));
    add(finalLetter(unionChains(1, 2, th ? few : std::vector<Guard>{{}, {{0, GE, 2}}}, {{}, {{0, LT, 2}}}, "ab"), "ab"));
    add(finalLetter(parallel(2, few, few, "a"), "a"));
    if (th) add(finalLetter(parallel(2, few, few, "ab"), "ab"));
    // unobservable transitions; open guards only, so that it makes no difference whether two transitions may be simultaneous
    std::vector<Guard> open = {{}, {{0, LT, 2}}, {{0, GT, 2}}}, open2 = {{}, {{0, LT, 2}}, {{0, GT, 2}}, {{0, GT, 1}, {0, LT, 3}}};
    std::string ae("a\0", 2), abe("ab\0", 3);
    auto addE = [&](Family f) { f.name += ".eps"; f.window = 1; add(f); };
    addE(finalLetter(chain1(1, open2, open2, std::string("\0", 1)), "ab"));
    addE(finalLetter(chain1(2, th ? open2 : open, th ? open2 : open, abe), "a"));
    addE(finalLetter(chain1(3, th ? open : std::vector<Guard>{{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, ae), "a"));
    addE(finalLetter(chain2(2, {{}, {{0, LT, 2}}, {{1, GT, 2}}}, {{}, {{0, LT, 2}}, {{1, GT, 2}}}, {std::string("\0a", 2), std::string("a\0", 2)}), "a"));
    // several runs at once
    addE(finalLetter(parallel(3, {{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, std::string("\0", 1)), "a"));
    if (th) addE(finalLetter(parallel(3, {{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, ae), "a"));
    add(every(th ? 1 : 5, crowd({3, 7, 11}, true, "a")));
    add(every(th ? 1 : 5, crowd({3, 7, 11}, true, "b")));
    addE(finalLetter(unionChains(1, 2, {{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, ae), "a"));
    addE(finalLetter(unionChains(2, 3, {{}}, std::vector<Guard>{{{0, LT, 2}}}, ae), "a"));
    // and cycles of them
    addE(finalLetter(graph(1, 1, open2, open2, std::string("\0", 1)), "ab"));
    addE(finalLetter(graph(2, 2, th ? open2 : open, open, ae), "a"));
    if (th) addE(finalLetter(graph(2, 3, {{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, ae), "a"));
    if (th) addE(finalLetter(graph(3, 3, {{}, {{0, GT, 2}}}, {{}, {{0, LT, 2}}}, ae), "a"));
  } else {
    add(acceptMask(graph(1, 1, few, few, "ab"), 1, 0));
    add(acceptMask(unionChains(0, 1, few, few, "ab"), 1, 3));
    add(acceptMask(chain1(1, G24, G24, "ab"), 1, 1));
    add(acceptMask(chain1(2, th ? G24 : few5, few, "ab"), 2, 1));
    add(acceptMask(finalLetter(chain1(1, G24, few5, "ab"), "ab"), 1, 1));
    add(acceptMask(finalLetter(chain1(2, few, few, "ab"), "ab"), 2, 1));
    if (th) add(acceptMask(chain1(3, few, few, "ab"), 3, 1));
    add(acceptMask(chain2(2, th ? two : std::vector<Guard>{{}, {{0, LE, 2}}, {{1, GE, 4}}}, {{}, {{0, GT, 2}}}, {"aa", "ab"}), 2, 1));
    add(acceptMask(graph(2, 2, few, few, "ab"), 1, 1));
    add(acceptMask(parallel(2, few, th ? few : std::vector<Guard>{{}, {{0, GT, 2}}}, "a"), 2, 1));
    add(acceptMask(graph(3, 3, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}, {{0, GT, 2}}}, "ab"), 2, 1));
    add(acceptMask(unionChains(1, 2, th ? few : std::vector<Guard>{{}, {{0, GE, 2}}}, {{}}, "ab"), 2, 1));
  }
  const std::string fin = mode == SIGNAL ? "a" : "$";
  add(longChain(4, fin));
  add(every(th ? 1 : 3, longChain(5, fin)));
  add(manyClocks(3, fin));
  add(every(th ? 1 : 5, crowd({3, 9, 18}, false, fin)));
  add(every(th ? 1 : 7, manyClocks(4, fin)));
  if (th) { add(longChain(6, fin)); add(longChain(7, fin)); add(manyClocks(5, fin)); }
  return fs;
}

static inline std::vector<Family> matchFamilies(const std::string &tier, Mode mode) {
  if (mode != DOLLAR) return familiesLib(tier, mode);
  std::vector<Family> fs;
  Alpha ab{"ab", {1, 2, 3}};
  auto G24 = guards1(0, {2, 4}), G2 = guards1(0, {2});
  std::vector<Guard> few = {{}, {{0, LT, 2}}, {{0, GE, 2}}}, few3 = {{}, {{0, LT, 2}}, {{0, GT, 2}}, {{0, GE, 4}}, {{0, LE, 4}}};
  bool th = tier == "thorough";
  auto add = [&](Family f) { f.alpha = ab; fs.push_back(f); };
  // patterns whose matches may contain no event at all
  add(chain1(0, G24, guards1(0, {2, 4}), "ab"));
  add(unionChains(0, 1, few, G2, "ab"));
  add(unionChains(0, 2, few, {{}, {{0, GT, 2}}}, "ab"));
  add(graph(1, 1, G2, G2, "ab"));
  add(graph(1, 2, few, few, "ab"));
  add(chain1(1, G24, G24, "ab"));
  add(chain1(2, th ? G24 : G2, th ? G24 : few3, "ab"));
  add(chain1(3, th ? few3 : few, few, "ab"));
  std::vector<Guard> two = {{}, {{0, LT, 2}}, {{0, GE, 2}}, {{1, LT, 4}}, {{1, GT, 4}}};
  add(chain2(2, two, two, {"aa", "ab"}));
  if (th) add(chain2(3, two, {{}, {{1, LT, 4}}}, {"aaa", "aab", "aba"}));
  else add(chain2(3, {{}, {{0, LE, 2}}, {{1, GE, 4}}}, {{}}, {"aaa", "aba"}));
  add(graph(2, 2, G2, few, "ab"));
  add(graph(3, 3, th ? few : std::vector<Guard>{{}, {{0, LT, 2}}}, {{}, {{0, GT, 2}}}, "ab"));
  if (th) add(graph(3, 4, {{}, {{0, LT, 2}}}, {{}}, "ab"));
  add(parallel(2, few, few3, "a"));
  if (th) add(parallel(2, few, few3, "ab"));
  add(unionChains(1, 2, few, {{}, {{0, GT, 2}}}, "ab"));
  if (th) add(unionChains(2, 3, {{}, {{0, GE, 2}}}, {{}}, "ab"));
  add(longChain(4));
  add(every(th ? 1 : 3, longChain(5)));
  add(manyClocks(3));
  add(every(th ? 1 : 5, crowd({3, 9, 18}, false)));
  add(every(th ? 1 : 7, manyClocks(4)));
  if (th) { add(longChain(6)); add(longChain(7)); add(manyClocks(5)); }
  return fs;
}
// With small constants, where the skip tables are computed again in every run.
static inline std::vector<Family> smallFamilies(Mode mode) {
  std::vector<Family> fs;
  auto G2 = guards1(0, {2}), G12 = guards1(0, {1, 2});
  std::vector<Guard> few = {{}, {{0, LT, 2}}, {{0, GE, 2}}}, two = {{}, {{0, LE, 1}}, {{1, GE, 2}}};
  std::vector<Family> base = {chain1(0, G12, G12, "ab"), chain1(1, G12, G12, "ab"), chain1(2, G2, few, "ab"), chain1(3, few, few, "ab"), chain2(2, two, two, {"aa", "ab"}),
                              graph(1, 1, G2, G2, "ab"), graph(2, 2, G2, few, "ab"), graph(3, 3, few, {{}, {{0, GT, 2}}}, "ab"), graph(3, 4, {{}}, {{}, {{0, LT, 2}}}, "ab"),
                              unionChains(0, 1, few, G2, "ab"), unionChains(0, 2, few, few, "ab"), unionChains(1, 2, few, few, "ab"), unionChains(1, 3, {{}, {{0, LT, 2}}}, {{}}, "ab")};
  if (mode == SIGNAL) { // with unobservable transitions
    std::vector<Guard> open = {{}, {{0, LT, 2}}, {{0, GT, 2}}};
    std::string e("\0", 1), ae("a\0", 2);
    for (auto &f : {chain1(1, open, open, e), chain1(2, open, open, ae), graph(1, 1, open, open, e), graph(2, 2, open, open, ae)}) fs.push_back(finalLetter(f, "a"));
  }
  for (auto &f : base) {
    if (mode == DOLLAR) fs.push_back(f);
    else if (mode == SIGNAL) { if (f.name != "union.0.1" && f.name != "union.0.2" && f.name != "chain1.0") fs.push_back(finalLetter(f, "ab")); }
    else { fs.push_back(f.name == "chain1.0" ? f : acceptMask(f, 1, f.name[0] == 'g' ? 0 : 1)); }
  }
  return fs;
}
} // namespace vp
