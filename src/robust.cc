// Every input of bounded size, through parsing, construction and all matchers,
// under AddressSanitizer and UndefinedBehaviorSanitizer: no memory error, no
// undefined arithmetic, no uncaught exception, termination.
#include "pool.hh"
#include "monaa/tre_driver.hh"
#include "monaa/intermediate_tre.hh"
#include "monaa/timed_automaton_parser.hh"
#include "libmonaa/monaa.hh"
#include "libmonaa/ans_vec.hh"
#include "libmonaa/word_container.hh"
#include <sstream>
using namespace vp;
static const char *modeName[] = {"monaa", "monaaDollar", "monaaNotNecessaryDollar"};
static std::string show(const std::string &s) {
  std::string r;
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
  return r;
}
static FILE *src(const std::string &b) {
  FILE *f = b.empty() ? fopen("/dev/null", "r") : fmemopen((void *)b.data(), b.size(), "r");
  if (!f) _exit(77);
  return f;
}
// the programs refuse patterns with more clocks than this
static const size_t clockLimit = 127;
// every matcher that the programs could choose for the pattern
static void match(uint64_t c, const std::string &what, const TimedAutomaton &A, const std::string &log, bool binary, int from = 0, int to = 3) {
  if (A.clockSize() > clockLimit) { count(AUX1); return; }
  for (int mode = from; mode < to; mode++) {
    phase(what + " by " + modeName[mode]);
    FILE *f = src(log);
    vpExitArmed = 1;
    if (!setjmp(vpExitJmp)) {
      try {
        WordLazyDeque w(f, binary);
        AnsVec<Zone> ans;
        AnsPrinter pr(false);
        if (mode == 0) { monaa(w, A, ans); }
        else if (mode == 1) { monaaDollar(w, A, ans); }
        else { monaaNotNecessaryDollar(w, A, ans); }
        for (auto &z : ans) pr.push_back(z);
        count(MATCHES, ans.size());
        if (ans.size()) count(NONTRIVIAL);
      } catch (const std::exception &e) { fail(c, "exception", what + " by " + modeName[mode], e.what()); }
      catch (...) { fail(c, "exception", what + " by " + modeName[mode], "not a std::exception"); }
    } else if (vpExitCode != 10) fail(c, "exit", what + " by " + modeName[mode], "exit(" + std::to_string(vpExitCode) + ")");
    vpExitArmed = 0;
    fclose(f);
    count(TRANSITIONS);
  }
}
static bool haveDollar(const TimedAutomaton &A) {
  for (auto &s : A.states) if (s->next.count('$')) return true;
  return false;
}
static std::string bin(std::initializer_list<std::pair<char, double>> l) {
  std::string s;
  for (auto &p : l) { char b[9]; b[0] = p.first; memcpy(b + 1, &p.second, 8); s.append(b, 9); }
  return s;
}
// ---- expressions -----------------------------------------------------------
static const char *tok[] = {"a", "$", "(", ")", "+", "*", "|", "&", "%<2", "%(1,2)", "%=0", "%>2147483647"};
static const int NT = 12;
static void expression(uint64_t c, const std::string &text, bool deep = false) {
  phase(show(text));
  std::stringstream ss(text);
  TREDriver drv;
  count(STATES);
  bool ok = false;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) { // a byte no token begins with: exit status 2
    vpExitArmed = 0;
    if (vpExitCode != 2) fail(c, "exit", show(text), "exit(" + std::to_string(vpExitCode) + ")");
    return;
  }
  try { ok = drv.parse(ss); } catch (const std::exception &e) { fail(c, "exception", show(text), e.what()); return; }
  vpExitArmed = 0;
  if (!ok) return;
  count(EVALS);
  TimedAutomaton A;
  std::stringstream dot;
  try {
    drv.getResult()->toEventTA(A);
    dot << A;
  } catch (const std::exception &e) { fail(c, "exception", show(text), e.what()); return; }
  if (deep) return;
  static const std::string logs[] = {"", "a 1\n", "a 1\na 2\nb 3\na 3.5\n$ 4\na 4.25\n"};
  for (auto &l : logs) match(c, show(text) + " on " + show(l), A, l, false);
  if (dot.str().size() < 4000) { // and through the printed form
    BoostTimedAutomaton B;
    TimedAutomaton A2;
    try { parseBoostTA(dot, B); convBoostTA(B, A2); } catch (const std::exception &e) { fail(c, "exception", show(text) + " printed", e.what()); return; }
    match(c, show(text) + " printed", A2, logs[2], false, haveDollar(A2) ? 1 : 0, haveDollar(A2) ? 2 : 1);
  }
}
// in signal mode
static void signalExpression(uint64_t c, const std::string &text, bool deep) {
  phase(show(text));
  std::stringstream ss(text);
  TREDriver drv;
  count(STATES);
  bool ok = false;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) { vpExitArmed = 0; return; } // judged above
  try { ok = drv.parse(ss); } catch (const std::exception &e) { fail(c, "exception", show(text), e.what()); return; }
  vpExitArmed = 0;
  if (!ok) return;
  count(EVALS);
  TimedAutomaton A;
  try { toSignalTA(drv.getResult(), A); } catch (const std::exception &) { return; /* rejected: the program reports it and exits with 2 */ } catch (const char *e) { fail(c, "exception-signal", show(text), e); return; }
  if (deep) return;
  static const std::string logs[] = {"", "a 1\n", "a 1\nb 2\na 3.5\na 4.25\n"};
  for (auto &l : logs) match(c, show(text) + " on " + show(l), A, l, false, 0, 1);
}
// ---- automata --------------------------------------------------------------
static const int clk[] = {0, 1, 3, 200, 255};
static const long long consts[] = {0, 1, 2147483647};
static const int NC = 5;
static std::string chainDot(int gi, long long gc, int ri, int di, int shape, char op) {
  std::string g = gi < 0 ? "" : ", guard=\"{x" + std::to_string(gi) + " " + op + " " + std::to_string(gc) + "}\"";
  std::string r = ri < 0 ? "" : ", reset=\"{" + std::to_string(ri) + "}\"";
  std::string d = di < 0 ? "" : ", guard=\"{x" + std::to_string(di) + " <= " + std::to_string(gc) + "}\"";
  std::string s = "digraph G {\n";
  auto loc = [&](int i, bool in, bool m) { s += std::to_string(i) + " [init=" + (in ? "1" : "0") + ", match=" + (m ? "1" : "0") + "]\n"; };
  loc(1, true, shape == 3);
  loc(2, shape == 2, false);
  loc(3, false, true);
  s += "1->2 [label=\"a\"" + g + r + "]\n2->3 [label=\"$\"" + d + "]\n";
  if (shape == 1) s += "2->1 [label=\"a\"" + r + "]\n2->2 [label=\"b\"" + d + r + "]\n";
  if (shape == 2) s += "2->3 [label=\"a\"" + r + "]\n";
  if (shape == 3) s += "1->1 [label=\"b\"" + r + d + "]\n";
  return s + "}\n";
}
static void automaton(uint64_t c, const std::string &text, const std::string &name) {
  phase(name);
  std::stringstream ss(text);
  BoostTimedAutomaton B;
  TimedAutomaton A;
  count(STATES);
  try { parseBoostTA(ss, B); } catch (const std::exception &) { return; }
  count(EVALS);
  try { convBoostTA(B, A); } catch (const std::exception &e) { fail(c, "exception", name, e.what()); return; }
  static const std::string logs[] = {"a 1\n", "a 1\na 2\nb 3\na 3.5\nb 4\na 2147483649\n"};
  for (auto &l : logs) match(c, name + " on " + show(l), A, l, false);
}
// ---- logs ------------------------------------------------------------------
static TimedAutomaton pattern(int k) {
  static const char *d[] = {
      "digraph G { 1 [init=1,match=0]; 2 [init=0,match=0]; 3 [init=0,match=1]; 1->2 [label=\"a\",guard=\"{x0 > 1}\",reset=\"{0}\"]; 2->2 [label=\"a\"]; 2->3 [label=\"$\",guard=\"{x0 < 2}\"]; }",
      "digraph G { 1 [init=1,match=0]; 3 [init=0,match=1]; 1->3 [label=\"$\",guard=\"{x0 >= 1, x0 <= 2}\"]; }",
      "digraph G { 1 [init=1,match=0]; 2 [init=0,match=0]; 3 [init=0,match=1]; 1->2 [label=\"a\",guard=\"{x0 <= 1}\"]; 2->3 [label=\"a\",guard=\"{x0 > 1}\"]; 2->2 [label=\"$\"]; }"};
  std::stringstream ss(d[k]);
  BoostTimedAutomaton B;
  TimedAutomaton A;
  parseBoostTA(ss, B);
  convBoostTA(B, A);
  return A;
}
static void logBytes(uint64_t c, const std::string &log, bool binary) {
  count(STATES); count(EVALS);
  for (int k = 0; k < 3; k++) match(c, "pattern " + std::to_string(k) + (binary ? " binary " : " ") + show(log), pattern(k), log, binary, k == 2 ? 2 : 1, k == 2 ? 3 : 2);
  match(c, std::string("pattern 2") + (binary ? " binary " : " ") + show(log), pattern(2), log, binary, 0, 1);
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  std::string what = o.rest.empty() ? "expr" : o.rest[0];
  if (o.only < 0) { int n = open("/dev/null", O_WRONLY); int keep = dup(1); (void)keep; (void)n; }
  freopen("/dev/null", "w", stdout); // the answers are printed, and read by nobody
  std::vector<std::string> in;
  std::vector<std::string> name;
  if (what == "expr" || what == "signal") {
    const bool signal = what == "signal";
    if (signal) { tok[1] = "b"; tok[9] = "%(1,3)"; }
    // Zone graphs of loops grow with the constants, so a huge one only goes without a loop.
    auto fine = [](const std::string &s) { return s.find("7483647") == std::string::npos || s.find_first_of("+*") == std::string::npos; };
    int L = th ? 5 : 4;
    // sequences that begin like a pattern; the rest is P01's business
    std::vector<std::string> cur = {""};
    for (int n = 0; n < L; n++) {
      std::vector<std::string> nx;
      for (auto &s : cur) for (int k = 0; k < NT; k++) if (!(s.empty() && k > 2)) nx.push_back(s + tok[k]);
      nx.erase(std::remove_if(nx.begin(), nx.end(), [&](const std::string &s) { return !fine(s); }), nx.end());
      in.insert(in.end(), nx.begin(), nx.end());
      cur.swap(nx);
    }
    for (int b = 0; b < 256; b++) for (const char *pre : {"", "a", "a%", "a%(1,", "("}) in.push_back(std::string(pre) + (char)b);
    if (!th) { // one token more over fewer of them
      static const char *few[] = {"a", "$", "+", "|", "%<2"};
      cur = {"a", "$"};
      for (int n = 1; n < 5; n++) {
        std::vector<std::string> nx;
        for (auto &s : cur) for (auto f : few) nx.push_back(s + f);
        cur.swap(nx);
      }
      in.insert(in.end(), cur.begin(), cur.end());
    }
    std::vector<std::string> deepIn;
    const char *deep[] = {"(", ")", "a", "+", "|a", "&a", "%<2", "%"};
    for (auto d : deep) { if (signal && *d == '&') continue; // a product of 300 automata
      std::string s = "a"; for (int i = 0; i < 300; i++) s += d; deepIn.push_back(s); s = "a"; for (int i = 0; i < 300; i++) s = d + s; if (*d != '&' && *d != '%' && *d != '|') deepIn.push_back(s); }
    const size_t per = 4;
    const size_t n = (in.size() + per - 1) / per;
    return runPool(o, n + deepIn.size(), [&](uint64_t c) {
      if (c >= n) { if (signal) signalExpression(c, deepIn[c - n], true); else expression(c, deepIn[c - n], true); return; }
      for (size_t i = c * per; i < std::min(in.size(), (c + 1) * per); i++) { if (signal) signalExpression(c, in[i], false); else expression(c, in[i]); count(TRACES); if (i % 40013 == 7) sample(show(in[i])); }
    }, [&](uint64_t c) { return c >= n ? show(deepIn[c - n]) : show(in[c * per]) + " and following"; });
  }
  if (what == "dot") {
    for (int g = -1; g < NC; g++) for (int r = -1; r < NC; r++) for (int d = -1; d < NC; d++)
      for (int k = 0; k < 3; k++) for (int shape = 0; shape < 4; shape++) for (char op : {'<', '>'}) {
        if (k == 2 && (shape == 1 || shape == 3)) continue; // a loop
        if (!th && (g + 2 * r + 3 * d + 5 * k + 7 * shape + (op == '<') + 60) % 5) continue; // every fifth
        int gi = g < 0 ? -1 : clk[g], ri = r < 0 ? -1 : clk[r], di = d < 0 ? -1 : clk[d];
        in.push_back(chainDot(gi, consts[k], ri, di, shape, op));
        name.push_back("clocks " + std::to_string(gi) + "," + std::to_string(ri) + "," + std::to_string(di) + " constant " + std::to_string(consts[k]) + " shape " + std::to_string(shape) + " " + op);
      }
    // short token strings
    const char *dt[] = {"digraph", "G", "{", "}", "1", "->", "[", "]", "init=1", "match=1", ";", "label=a", "guard=\"{x0 < 1}\"", "reset=\"{0}\"", "\"", ","};
    std::vector<std::string> cur = {"digraph G { "};
    for (int n = 0; n < (th ? 5 : 4); n++) {
      std::vector<std::string> nx;
      for (auto &s : cur) for (auto t : dt) nx.push_back(s + t + " ");
      for (auto &s : nx) { in.push_back(s + "}"); name.push_back(s + "}"); }
      cur.swap(nx);
    }
    // every byte as a label, in a guard, in a reset list
    for (int b = 0; b < 256; b++)
      for (int k = 0; k < 4; k++) {
        std::string x(1, (char)b);
        in.push_back("digraph G { 1 [init=1,match=0]; 2 [init=0,match=1]; 1->2 [label=\"" + (k == 0 ? x : "a") + "\",guard=\"{" + (k == 1 ? x : k == 2 ? "x0 " + x + " 1" : "") + "}\",reset=\"{" + (k == 3 ? x : "") + "}\"]; }");
        name.push_back("byte " + std::to_string(b) + " at " + std::to_string(k));
      }
    for (const char *s : {"", "digraph G {}", "digraph G { 1 [init=0,match=1]; }", "digraph G { 1 [init=1,match=0]; }", "digraph G { 1 [init=1,match=1]; }", "graph G { 1; }", "digraph { 1 -> 1 }", "digraph G { 1 [init=1,match=1]; 1->1 [label=\"$\"]; }",
                          "digraph G { 1 [init=1,match=1]; 1->1 [label=\"a\"]; 1->1 [label=\"a\"]; }"}) { in.push_back(s); name.push_back(s); }
    const size_t per = 4;
    return runPool(o, (in.size() + per - 1) / per, [&](uint64_t c) {
      for (size_t i = c * per; i < std::min(in.size(), (c + 1) * per); i++) { automaton(c, in[i], show(name[i])); count(TRACES); if (i % 10007 == 3) sample(show(name[i])); }
    }, [&](uint64_t c) { return show(name[c * per]) + " and following"; });
  }
  // logs
  std::vector<char> isBin;
  auto addLog = [&](const std::string &s, bool b) { in.push_back(s); isBin.push_back(b); };
  const std::string bytes("a$ \n1.-en\0\xff", 11);
  std::vector<std::string> cur = {"", "a 1\na 1.5\n", "a 2\na "};
  for (auto &s : cur) addLog(s, false);
  for (int n = 0; n < (th ? 4 : 3); n++) {
    std::vector<std::string> nx;
    for (auto &s : cur) for (char b : bytes) nx.push_back(s + b);
    for (auto &s : nx) addLog(s, false);
    cur.swap(nx);
  }
  const double ts[] = {1, 2, 0, -1, NAN, INFINITY, -INFINITY, 1e308, 5e-324, 2147483648.0};
  const char ls[] = {'a', '$', '\0', (char)0x80, (char)0xff};
  for (double t1 : ts) for (char l1 : ls) {
    std::string one = bin({{l1, t1}});
    for (size_t cut = 0; cut <= 9; cut++) addLog(one.substr(0, cut), true);
    for (double t2 : ts) for (char l2 : ls) {
      std::string two = bin({{l1, t1}, {l2, t2}});
      addLog(two, true);
      if (l1 == 'a' && l2 == 'a') for (double t3 : ts) { std::string three = bin({{l1, t1}, {l2, t2}, {'a', t3}}); addLog(three, true); addLog(three.substr(0, 20), true); }
    }
  }
  for (const char *s : {"a 1e400\n", "a -1e400\na 1\n", "a inf\na 1\n", "a nan\na 1\n", "a 0x10\na 17\n", "a 1e308\na 1.7e308\n", "a 99999999999999999999999999999999\n", "a 1 a 1 a 1 a 1\n", "a 3\na 2\na 1\n", "a 0\na 0\na 0\n", "a -3\na -2\n"}) addLog(s, false);
  const size_t per = 4;
  return runPool(o, (in.size() + per - 1) / per, [&](uint64_t c) {
    for (size_t i = c * per; i < std::min(in.size(), (c + 1) * per); i++) { logBytes(c, in[i], isBin[i]); count(TRACES); if (i % 10007 == 3) sample(show(in[i])); }
  }, [&](uint64_t c) { return show(in[c * per]) + " and following"; });
}
