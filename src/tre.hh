// Reference timed regular expressions: syntax tree, printing, and the
// denotational semantics on finite timed words (events only, segments split at
// events). Independent of the code under test.
#pragma once
#include "ta.hh"
#include <memory>
#include <string>
#include <vector>
namespace vp {
struct Iv { int lo; bool loC; int hi; bool hiC; const char *txt; }; // hi<0: unbounded
static inline bool inIv(const Iv &i, int v4) {
  int lo = 4 * i.lo, hi = 4 * i.hi;
  if (i.loC ? v4 < lo : v4 <= lo) return false;
  if (i.hi < 0) return true;
  return i.hiC ? v4 <= hi : v4 < hi;
}
struct Tre;
using TreP = std::shared_ptr<const Tre>;
struct Tre {
  enum Op { ATOM, PLUS, STAR, CAT, OR, AND, WITHIN } op;
  char c = 0;
  const Iv *iv = nullptr;
  TreP l, r;
  int id = 0;
};
static inline TreP tAtom(char c) { auto t = std::make_shared<Tre>(); t->op = Tre::ATOM; t->c = c; return t; }
static inline TreP tUn(Tre::Op o, TreP l, const Iv *iv = nullptr) { auto t = std::make_shared<Tre>(); t->op = o; t->l = l; t->iv = iv; return t; }
static inline TreP tBin(Tre::Op o, TreP l, TreP r) { auto t = std::make_shared<Tre>(); t->op = o; t->l = l; t->r = r; return t; }
static inline std::string treStr(const TreP &t) {
  switch (t->op) {
  case Tre::ATOM: return std::string(1, t->c);
  case Tre::PLUS: return "(" + treStr(t->l) + "+)";
  case Tre::STAR: return "(" + treStr(t->l) + "*)";
  case Tre::CAT: return "(" + treStr(t->l) + treStr(t->r) + ")";
  case Tre::OR: return "(" + treStr(t->l) + "|" + treStr(t->r) + ")";
  case Tre::AND: return "(" + treStr(t->l) + "&" + treStr(t->r) + ")";
  default: return "(" + treStr(t->l) + "%" + t->iv->txt + ")";
  }
}
static inline int treConst(const TreP &t) {
  int m = 0;
  if (t->iv) m = std::max(t->iv->lo, t->iv->hi);
  if (t->l) m = std::max(m, treConst(t->l));
  if (t->r) m = std::max(m, treConst(t->r));
  return m;
}
static inline void treNodes(const TreP &t, std::vector<const Tre *> &post) {
  if (t->l) treNodes(t->l, post);
  if (t->r) treNodes(t->r, post);
  for (auto p : post) if (p == t.get()) return;
  post.push_back(t.get());
}
// Incremental chart: tab[node][s][e] for segments of the current word, where
// position 0 is the start time and position k is the k-th event.
struct TreChart {
  std::vector<const Tre *> nodes;
  std::vector<std::vector<std::vector<char>>> tab;
  std::vector<int> T; // quarter times
  std::vector<char> letters;
  int root;
  explicit TreChart(const TreP &t, int cap) {
    treNodes(t, nodes);
    for (size_t i = 0; i < nodes.size(); i++) const_cast<Tre *>(nodes[i])->id = (int)i;
    root = (int)nodes.size() - 1;
    tab.assign(nodes.size(), std::vector<std::vector<char>>(cap + 1, std::vector<char>(cap + 1, 0)));
  }
  void init(int start4) { T = {start4}; letters = {0}; column(0); }
  void push(char a, int t4) { T.push_back(t4); letters.push_back(a); column((int)T.size() - 1); }
  void pop() { T.pop_back(); letters.pop_back(); }
  // change the start time only: recomputes every segment that starts at 0
  bool accepts() const { return tab[root][0][T.size() - 1]; }
  void column(int e) {
    for (size_t n = 0; n < nodes.size(); n++)
      for (int s = e; s >= 0; s--) cell((int)n, s, e);
  }
  void cell(int n, int s, int e) {
    const Tre *x = nodes[n];
    auto &t = tab[n];
    bool v = false;
    switch (x->op) {
    case Tre::ATOM: v = e == s + 1 && letters[e] == x->c; break;
    case Tre::OR: v = tab[x->l->id][s][e] || tab[x->r->id][s][e]; break;
    case Tre::AND: v = tab[x->l->id][s][e] && tab[x->r->id][s][e]; break;
    case Tre::WITHIN: v = tab[x->l->id][s][e] && inIv(*x->iv, T[e] - T[s]); break;
    case Tre::CAT: for (int k = s; k <= e && !v; k++) v = tab[x->l->id][s][k] && tab[x->r->id][k][e]; break;
    case Tre::STAR:
    case Tre::PLUS:
      v = tab[x->l->id][s][e] || (x->op == Tre::STAR && s == e);
      // a proper first part; the rest was computed before (s descends)
      for (int k = s + 1; k < e && !v; k++) v = tab[x->l->id][s][k] && t[k][e];
      break;
    }
    t[s][e] = v;
  }
};

// All expressions with exactly n operators.
struct TreGen {
  std::string letters;
  std::vector<Iv> ivs;
  std::vector<std::vector<TreP>> by;
  std::vector<Tre::Op> bins = {Tre::CAT, Tre::OR, Tre::AND};
  bool plus = true, star = true;
  void build(int n) {
    for (int k = (int)by.size(); k <= n; k++) {
      by.emplace_back();
      auto &v = by[k];
      if (k == 0) { for (char c : letters) v.push_back(tAtom(c)); continue; }
      for (auto &t : by[k - 1]) {
        if (plus) v.push_back(tUn(Tre::PLUS, t));
        if (star) v.push_back(tUn(Tre::STAR, t));
        for (auto &i : ivs) v.push_back(tUn(Tre::WITHIN, t, &i));
      }
      for (auto o : bins)
        for (int a = 0; a < k; a++)
          for (auto &l : by[a]) for (auto &r : by[k - 1 - a]) v.push_back(tBin(o, l, r));
    }
  }
};
} // namespace vp
