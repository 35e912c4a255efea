// The log reader: every sequence of operations up to a depth, on every log of a
// family, every layout of its bytes, and every truncation of those bytes,
// against a plain list of the records those bytes spell.
#include "pool.hh"
#include "libmonaa/word_container.hh"
#include <cmath>
using namespace vp;
using Rec = std::pair<char, double>;
struct Bytes { std::string name, data; bool binary; };
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// independent reading of the bytes: letter, then a decimal number
static std::vector<Rec> spell(const Bytes &b) {
  std::vector<Rec> r;
  const std::string &s = b.data;
  if (b.binary) {
    for (size_t p = 0; p + 9 <= s.size(); p += 9) { double d; memcpy(&d, s.data() + p + 1, 8); r.push_back({s[p], d}); }
    return r;
  }
  size_t p = 0;
  for (;;) {
    while (p < s.size() && blank(s[p])) p++;
    if (p >= s.size()) return r;
    char c = s[p++];
    while (p < s.size() && blank(s[p])) p++;
    std::string n;
    bool dig = false, dot = false;
    while (p < s.size() && (isdigit((unsigned char)s[p]) || (s[p] == '.' && !dot))) { dig |= s[p] != '.'; dot |= s[p] == '.'; n += s[p++]; }
    if (!dig) return r;
    long double v = 0, f = 1;
    bool fr = false;
    for (char k : n) { if (k == '.') fr = true; else { v = v * 10 + (k - '0'); if (fr) f *= 10; } }
    r.push_back({c, (double)(v / f)});
  }
}
static const Rec recs[4] = {{'a', 0.5}, {'$', 3}, {'b', 12345678.25}, {'7', 12345679}};
static std::vector<Bytes> logs;
static void build(int maxLen) {
  for (int n = 0; n <= maxLen; n++) {
    auto lay = [&](const char *name, const char *pre, const char *mid, const char *sep, const char *end) {
      std::string s = pre;
      for (int i = 0; i < n; i++) {
        char b[64];
        snprintf(b, sizeof b, "%g", recs[i].second);
        if (recs[i].second > 1e6) snprintf(b, sizeof b, "%.2f", recs[i].second);
        s += std::string(1, recs[i].first) + mid + b + (i + 1 < n ? sep : end);
      }
      logs.push_back({std::string(name) + " x" + std::to_string(n), s, false});
    };
    lay("lines", "", " ", "\n", "\n");
    lay("no final newline", "", " ", "\n", "");
    lay("crlf, tabs", "", "\t", "\r\n", "\r\n");
    lay("one line", "", " ", " ", "");
    lay("wide blanks", "\n \n", "   ", "  \n\n ", " \n\n");
    lay("letter next to number", "", "", "\n", "\n");
    std::string s;
    for (int i = 0; i < n; i++) { char b[9]; b[0] = recs[i].first; memcpy(b + 1, &recs[i].second, 8); s.append(b, 9); }
    logs.push_back({"binary x" + std::to_string(n), s, true});
  }
  { // letters that are blanks or not ASCII, in binary; special numbers
    std::string s;
    Rec odd[4] = {{' ', 0}, {'\0', 1e-9}, {'\n', 1e300}, {(char)-1, 5e-324}};
    for (auto &r : odd) { char b[9]; b[0] = r.first; memcpy(b + 1, &r.second, 8); s.append(b, 9); }
    logs.push_back({"binary odd", s, true});
  }
  logs.push_back({"number missing", "a 1\nb\nc 2\n", false});
  logs.push_back({"not a number", "a 1\nb x\nc 2\n", false});
  logs.push_back({"letters only", "a b", false});
}
static FILE *src(const Bytes &b) {
  FILE *f = b.data.empty() ? fopen("/dev/null", "r") : fmemopen((void *)b.data.data(), b.data.size(), "r");
  if (!f) { perror("fmemopen"); _exit(77); }
  return f;
}
struct Op { int kind; size_t n; };
static const char *opn[] = {"fetch", "[]", "at", "setFront", "size"};
template <class W> static void run(uint64_t c, const Bytes &b, const std::vector<Rec> &ref, const std::vector<Op> &ops, bool lazy) {
  FILE *f = src(b);
  {
    W w(f, b.binary);
    size_t front = 0, loaded = lazy ? 0 : ref.size();
    bool known = !lazy;
    std::string tr;
    auto bad = [&](const std::string &why) {
      std::string in = b.name + (lazy ? "" : " (vector)") + " " + std::to_string(b.data.size()) + " bytes:" + tr;
      fail(c, "reader", in, why);
    };
    for (auto &o : ops) {
      count(TRANSITIONS);
      tr += std::string(" ") + opn[o.kind] + "(" + std::to_string(o.n) + ")";
      if (o.kind == 0) {
        bool want = (o.n >= front || !lazy) && o.n < ref.size();
        bool got = w.fetch(o.n);
        if (got != want) { bad(std::string("returned ") + (got ? "true" : "false")); break; }
        if (o.n >= front) {
          if (o.n < ref.size()) loaded = std::max(loaded, o.n + 1);
          else { loaded = ref.size(); known = true; }
        }
      } else if (o.kind <= 2) {
        bool thrown = false;
        std::pair<Alphabet, double> v;
        if (!lazy && o.kind == 1 && o.n >= ref.size()) continue; // unchecked access
        try { v = o.kind == 1 ? w[o.n] : w.at(o.n); } catch (const std::out_of_range &) { thrown = true; }
        bool must = o.n >= front && o.n < std::min(loaded, ref.size());
        bool may = must || (o.n >= front && o.n < ref.size());
        if (!lazy) may = must = o.n < ref.size();
        if (thrown && must) { bad("refused"); break; }
        if (!thrown && !may) { bad(std::string("delivered (") + v.first + "," + num(v.second) + ")"); break; }
        if (!thrown && ((char)v.first != ref[o.n].first || v.second != ref[o.n].second)) {
          bad(std::string("delivered (") + v.first + "," + num(v.second) + ") instead of (" + ref[o.n].first + "," + num(ref[o.n].second) + ")");
          break;
        }
        if (!thrown) count(NONTRIVIAL);
      } else if (o.kind == 3) {
        bool thrown = false;
        try { w.setFront(o.n); } catch (const std::out_of_range &) { thrown = true; }
        if (!lazy) { if (thrown) { bad("refused"); break; } continue; }
        if (thrown != (o.n < front)) { bad(thrown ? "refused" : "not refused"); break; }
        if (!thrown) {
          front = o.n;
          if (o.n > ref.size()) known = true; // the end was met
          loaded = std::max(loaded, std::min(o.n, ref.size()));
        }
      } else {
        size_t s = w.size();
        if (!(s == ref.size() || (!known && s == std::numeric_limits<std::size_t>::max()))) { bad("size is " + std::to_string(s)); break; }
      }
      count(STATES);
    }
  }
  fclose(f);
  count(TRACES); count(EVALS);
}
static void all(uint64_t c, const Bytes &b, int depth, bool lazy) {
  auto ref = spell(b);
  std::vector<Op> ops;
  for (size_t k = 0; k <= ref.size() + 2; k++) for (int kind = 0; kind < 4; kind++) if (kind != 2 || k <= 1) ops.push_back({kind, k});
  ops.push_back({4, 0});
  std::vector<Op> seq(depth);
  std::vector<size_t> ix(depth, 0);
  for (;;) {
    for (int i = 0; i < depth; i++) seq[i] = ops[ix[i]];
    if (lazy) run<WordLazyDeque>(c, b, ref, seq, true);
    else run<WordVector<std::pair<Alphabet, double>>>(c, b, ref, seq, false);
    int p = depth - 1;
    while (p >= 0 && ++ix[p] == ops.size()) ix[p--] = 0;
    if (p < 0) break;
  }
}
// The n-th record is delivered without waiting for the input after it: the log
// arrives one line (or binary record) at a time.
struct Slow { std::vector<std::string> parts; size_t next = 0; };
static void slow(uint64_t c, const Bytes &b) {
  auto ref = spell(b);
  Slow sl;
  if (b.binary) for (size_t p = 0; p < b.data.size(); p += 9) sl.parts.push_back(b.data.substr(p, 9));
  else for (size_t p = 0, q; p < b.data.size(); p = q) { q = b.data.find('\n', p); q = q == std::string::npos ? b.data.size() : q + 1; sl.parts.push_back(b.data.substr(p, q - p)); }
  cookie_io_functions_t io{};
  io.read = [](void *ck, char *buf, size_t n) -> ssize_t {
    auto *s = (Slow *)ck;
    if (s->next >= s->parts.size()) { s->next++; return 0; }
    auto &p = s->parts[s->next++];
    if (p.size() > n) _exit(77);
    memcpy(buf, p.data(), p.size());
    return (ssize_t)p.size();
  };
  // the number of parts needed for the first k records
  std::vector<size_t> need(ref.size() + 1, 0);
  Bytes pre{b.name, "", b.binary};
  size_t k = 0;
  for (size_t i = 0; i < sl.parts.size(); i++) {
    pre.data += sl.parts[i];
    size_t m = spell(pre).size();
    bool open = !b.binary && !pre.data.empty() && !blank(pre.data.back()); // the last number may go on
    while (k < m) { k++; need[k] = i + 1 + (open && k == m); }
  }
  for (size_t n = 0; n < ref.size(); n++)
    for (int viaFront = 0; viaFront < 2; viaFront++) {
      sl.next = 0;
      FILE *f = fopencookie(&sl, "r", io);
      WordLazyDeque w(f, b.binary);
      if (viaFront) w.setFront(n);
      bool ok = w.fetch(n) && (char)w.at(n).first == ref[n].first && w.at(n).second == ref[n].second;
      count(TRANSITIONS); count(TRACES); count(EVALS); count(STATES);
      std::string in = b.name + ": fetch(" + std::to_string(n) + (viaFront ? ") after setFront" : ")") + " of a log arriving in parts";
      if (!ok) fail(c, "reader", in, "wrong record");
      if (sl.next > need[n + 1]) fail(c, "waits", in, "waited for part " + std::to_string(sl.next) + " although part " + std::to_string(need[n + 1]) + " completes the record");
      fclose(f);
    }
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  build(th ? 4 : 3);
  // case = a log and a truncation of it; whole logs get deeper sequences
  std::vector<std::pair<int, size_t>> cases;
  for (size_t i = 0; i < logs.size(); i++) for (size_t cut = 0; cut <= logs[i].data.size(); cut++) cases.push_back({(int)i, cut});
  if (o.only < 0) printf("logs %zu, truncations %zu\n", logs.size(), cases.size());
  return runPool(o, cases.size(), [&](uint64_t c) {
    Bytes b = logs[cases[c].first];
    bool whole = cases[c].second == b.data.size();
    b.data.resize(cases[c].second);
    phase(b.name + " cut at " + std::to_string(b.data.size()));
    all(c, b, whole ? (th ? 5 : 4) : (th ? 4 : 3), true);
    all(c, b, 2, false);
    if (whole) slow(c, b);
    if (whole) sample(b.name + ": all sequences of operations");
  }, [&](uint64_t c) { return logs[cases[c].first].name + " cut at " + std::to_string(cases[c].second); });
}
