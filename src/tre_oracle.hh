// Denotational oracle for timed pattern matching with an expression over the
// event letters and '$': (t,t') matches iff the events in (t,t') followed by
// '$' at t' are in the expression's language.
#pragma once
#include "tre.hh"
namespace vp {
// Straightforward version: one chart per start time.
static inline void treMatchNaive(const TreP &p, const Word &w, int tailUnits, PairSet &out, uint64_t &states) {
  const int N = (int)w.size();
  const int tail = 4 * ((N ? w[N - 1].t : 0) + tailUnits);
  static TreChart *chart = nullptr;
  static const Tre *owner = nullptr;
  static TreP keep;
  if (owner != p.get() || !chart) { delete chart; chart = new TreChart(p, 8); owner = p.get(); keep = p; }
  for (int i = 0; i <= N; i++) {
    int lo = i ? 4 * w[i - 1].t : 0, hi = i < N ? 4 * w[i].t : tail;
    for (int t = lo; t < hi; t++) {
      chart->init(t);
      for (int j = i; j <= N; j++) {
        int elo = std::max(j ? 4 * w[j - 1].t : 0, t) + 1, ehi = j < N ? 4 * w[j].t : tail;
        for (int u = elo; u <= ehi; u++) {
          chart->push('$', u);
          if (chart->accepts()) out.push_back(code(t, u));
          chart->pop();
          states++;
        }
        if (j < N) chart->push(w[j].a, 4 * w[j].t);
      }
    }
  }
  normalise(out);
}

// Version for longer logs: segments are shared between start times.
struct TreMatcher {
  std::vector<const Tre *> nodes;
  const Word &w;
  int N, R;
  std::vector<int> T; // T[p], p>=1: time of event p-1 (quarters)
  std::vector<std::vector<std::vector<char>>> E; // [node][p][q]
  TreMatcher(const TreP &p, const Word &w) : w(w), N((int)w.size()) {
    treNodes(p, nodes);
    for (size_t i = 0; i < nodes.size(); i++) const_cast<Tre *>(nodes[i])->id = (int)i;
    R = (int)nodes.size() - 1;
    T.assign(N + 1, 0);
    for (int i = 0; i < N; i++) T[i + 1] = 4 * w[i].t;
    E.assign(nodes.size(), std::vector<std::vector<char>>(N + 1, std::vector<char>(N + 1, 0)));
    for (int s = N; s >= 0; s--)
      for (int e = s; e <= N; e++)
        for (size_t n = 0; n < nodes.size(); n++) E[n][s][e] = cellE((int)n, s, e);
  }
  bool cellE(int n, int s, int e) {
    const Tre *x = nodes[n];
    auto at = [&](const TreP &c, int a, int b) { return E[c->id][a][b]; };
    switch (x->op) {
    case Tre::ATOM: return e == s + 1 && w[e - 1].a == x->c;
    case Tre::OR: return at(x->l, s, e) || at(x->r, s, e);
    case Tre::AND: return at(x->l, s, e) && at(x->r, s, e);
    case Tre::WITHIN: return at(x->l, s, e) && inIv(*x->iv, s == e ? 0 : T[e] - T[s]);
    case Tre::CAT: for (int k = s; k <= e; k++) if (at(x->l, s, k) && at(x->r, k, e)) return true; return false;
    default:
      if (x->op == Tre::STAR && s == e) return true;
      if (at(x->l, s, e)) return true;
      for (int k = s + 1; k < e; k++) if (at(x->l, s, k) && E[n][k][e]) return true;
      return false;
    }
  }
  // segments from start time t (before event i) to event position q >= i
  std::vector<std::vector<char>> S;
  void start(int t, int i) {
    S.assign(nodes.size(), std::vector<char>(N + 1, 0));
    for (int q = i; q <= N; q++)
      for (size_t n = 0; n < nodes.size(); n++) {
        const Tre *x = nodes[n];
        bool v = false;
        auto to = [&](const TreP &c, int k) { return S[c->id][k]; };
        switch (x->op) {
        case Tre::ATOM: v = q == i + 1 && w[i].a == x->c; break;
        case Tre::OR: v = to(x->l, q) || to(x->r, q); break;
        case Tre::AND: v = to(x->l, q) && to(x->r, q); break;
        case Tre::WITHIN: v = to(x->l, q) && inIv(*x->iv, q == i ? 0 : T[q] - t); break;
        case Tre::CAT:
          // the split at the start itself: left is empty, right starts at t
          v = S[x->l->id][i] && S[x->r->id][q];
          for (int k = i + 1; k <= q && !v; k++) v = S[x->l->id][k] && E[x->r->id][k][q];
          break;
        default:
          v = (x->op == Tre::STAR && q == i) || S[x->l->id][q];
          for (int k = i + 1; k < q && !v; k++) v = S[x->l->id][k] && E[n][k][q];
        }
        S[n][q] = v;
      }
  }
  // segments from event position p >= 1 to '$' at u, after events up to j
  std::vector<std::vector<char>> D;
  void end(int u, int j) {
    D.assign(nodes.size(), std::vector<char>(N + 1, 0));
    for (int p = j; p >= 1; p--)
      for (size_t n = 0; n < nodes.size(); n++) {
        const Tre *x = nodes[n];
        bool v = false;
        switch (x->op) {
        case Tre::ATOM: v = p == j && x->c == '$'; break;
        case Tre::OR: v = D[x->l->id][p] || D[x->r->id][p]; break;
        case Tre::AND: v = D[x->l->id][p] && D[x->r->id][p]; break;
        case Tre::WITHIN: v = D[x->l->id][p] && inIv(*x->iv, u - T[p]); break;
        case Tre::CAT:
          v = D[x->l->id][p] && E[x->r->id][0][0]; // the right part is empty, after '$'
          for (int k = p; k <= j && !v; k++) v = E[x->l->id][p][k] && D[x->r->id][k];
          break;
        default:
          v = D[x->l->id][p];
          for (int k = p + 1; k <= j && !v; k++) v = E[x->l->id][p][k] && D[n][k];
        }
        D[n][p] = v;
      }
  }
  std::vector<char> F;
  bool pair(int t, int i, int u, int j) {
    F.assign(nodes.size(), 0);
    for (size_t n = 0; n < nodes.size(); n++) {
      const Tre *x = nodes[n];
      bool v = false;
      switch (x->op) {
      case Tre::ATOM: v = i == j && x->c == '$'; break;
      case Tre::OR: v = F[x->l->id] || F[x->r->id]; break;
      case Tre::AND: v = F[x->l->id] && F[x->r->id]; break;
      case Tre::WITHIN: v = F[x->l->id] && inIv(*x->iv, u - t); break;
      case Tre::CAT:
        v = (F[x->l->id] && E[x->r->id][0][0]) || (S[x->l->id][i] && F[x->r->id]);
        for (int k = i + 1; k <= j && !v; k++) v = S[x->l->id][k] && D[x->r->id][k];
        break;
      default:
        v = F[x->l->id];
        for (int k = i + 1; k <= j && !v; k++) v = S[x->l->id][k] && D[n][k];
      }
      F[n] = v;
    }
    return F[R];
  }
  void run(int tailUnits, PairSet &out, uint64_t &states) {
    const int tail = 4 * ((N ? w[N - 1].t : 0) + tailUnits);
    // end columns for every u
    std::vector<std::vector<std::vector<char>>> ends(tail + 1);
    std::vector<int> jOf(tail + 1, 0);
    for (int j = 0; j <= N; j++) {
      int elo = (j ? 4 * w[j - 1].t : 0) + 1, ehi = j < N ? 4 * w[j].t : tail;
      for (int u = elo; u <= ehi; u++) { end(u, j); ends[u] = D; jOf[u] = j; }
    }
    for (int i = 0; i <= N; i++) {
      int lo = i ? 4 * w[i - 1].t : 0, hi = i < N ? 4 * w[i].t : tail;
      for (int t = lo; t < hi; t++) {
        start(t, i);
        for (int u = t + 1; u <= tail; u++) {
          D.swap(ends[u]);
          if (pair(t, i, u, jOf[u])) out.push_back(code(t, u));
          D.swap(ends[u]);
          states++;
        }
      }
    }
    normalise(out);
  }
};
} // namespace vp
