// Denotation of signal expressions: for a signal of segments c[0..] ending at
// end[0..] (grid steps, q per unit), which parts between two grid points belong
// to the expression. Independent of the code under test.
#pragma once
#include "tre.hh"
namespace vp {
using Bits = unsigned __int128;
using Rows = std::vector<Bits>; // rows[s] bit e: the part from s to e
// denotation; positions 0..n on the grid
static inline void denote(const TreP &t, const std::vector<char> &s, const std::vector<int> &end, int q, Rows &r) {
  const int n = end.back();
  r.assign(n + 1, 0);
  Rows a, b;
  switch (t->op) {
  case Tre::ATOM: {
    int b0 = 0;
    for (size_t i = 0; i < end.size(); b0 = end[i++])
      if (s[i] == t->c)
        for (int x = b0; x < end[i]; x++) for (int y = x + 1; y <= end[i]; y++) r[x] |= (Bits)1 << y;
    return;
  }
  case Tre::OR: case Tre::AND:
    denote(t->l, s, end, q, a); denote(t->r, s, end, q, b);
    for (int x = 0; x <= n; x++) r[x] = t->op == Tre::OR ? a[x] | b[x] : a[x] & b[x];
    return;
  case Tre::CAT:
    denote(t->l, s, end, q, a); denote(t->r, s, end, q, b);
    for (int x = 0; x <= n; x++) for (int y = x; y <= n; y++) if (a[x] >> y & 1) r[x] |= b[y];
    return;
  case Tre::WITHIN:
    denote(t->l, s, end, q, a);
    for (int x = 0; x <= n; x++)
      for (int y = x; y <= n; y++)
        if (a[x] >> y & 1) {
          int v = y - x, lo = q * t->iv->lo, hi = q * t->iv->hi;
          bool ok = t->iv->loC ? v >= lo : v > lo;
          if (t->iv->hi >= 0) ok = ok && (t->iv->hiC ? v <= hi : v < hi);
          if (ok) r[x] |= (Bits)1 << y;
        }
    return;
  default:
    denote(t->l, s, end, q, a);
    for (int x = n; x >= 0; x--) {
      r[x] = a[x];
      for (int y = x + 1; y <= n; y++) if (a[x] >> y & 1) r[x] |= r[y];
      if (t->op == Tre::STAR) r[x] |= (Bits)1 << x;
    }
  }
}
} // namespace vp
