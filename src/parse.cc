// The expression parser: every text over several alphabets up to a length is
// accepted iff a recursive-descent reading of the documented grammar accepts it;
// every interval notation denotes the interval it shows; blanks do not matter.
#include "pool.hh"
#include "tre.hh"
#include "monaa/tre_driver.hh"
#include "fromrepo.hh"
#include <sstream>
using namespace vp;
// --- reference: tokens, then F (op? F)*, F = (atom | '(' E ')') ('+' | '*' | '%' I)*
struct Ref {
  std::vector<std::string> tok;
  size_t p = 0;
  bool lex(const std::string &s) {
    for (size_t i = 0; i < s.size();) {
      char c = s[i];
      if (c == ' ' || c == '\t') { i++; continue; }
      if (c == '\n' && i + 1 == s.size()) return true; // a final end of line
      if (isdigit((unsigned char)c)) { std::string n; while (i < s.size() && isdigit((unsigned char)s[i])) n += s[i++]; if (atof(n.c_str()) > 2147483647.0) return false; tok.push_back(n); continue; }
      if ((c == '<' || c == '>') && i + 1 < s.size() && s[i + 1] == '=') { tok.push_back(s.substr(i, 2)); i += 2; continue; }
      if (!(c > 0 && (isalpha((unsigned char)c) || strchr("$|&*+%()[]<>=,", c)))) return false;
      tok.push_back(std::string(1, c));
      i++;
    }
    return true;
  }
  std::string peek() { return p < tok.size() ? tok[p] : ""; }
  bool is(const char *t) { if (peek() == t) { p++; return true; } return false; }
  bool num() { if (p < tok.size() && isdigit((unsigned char)tok[p][0])) { p++; return true; } return false; }
  bool atom() { if (p < tok.size() && (isalpha((unsigned char)tok[p][0]) || tok[p][0] == '$')) { p++; return true; } return false; }
  bool I() {
    if (is("<") || is("<=") || is("=") || is(">") || is(">=")) return num();
    if (is("[")) return num() && is(",") && num() && (is("]") || is(")"));
    if (is("(")) {
      if (num()) return is(",") && num() && (is("]") || is(")"));
      return I() && is(")");
    }
    return false;
  }
  bool F() {
    if (is("(")) { if (!E() || !is(")")) return false; }
    else if (!atom()) return false;
    for (;;) {
      if (is("+") || is("*")) continue;
      if (is("%")) { if (!I()) return false; continue; }
      return true;
    }
  }
  bool E() {
    if (!F()) return false;
    for (;;) {
      if (is("|") || is("&")) { if (!F()) return false; continue; }
      if (peek() == "(" || (p < tok.size() && (isalpha((unsigned char)tok[p][0]) || tok[p][0] == '$'))) { if (!F()) return false; continue; }
      return true;
    }
  }
  static bool accepts(const std::string &s) { Ref r; return r.lex(s) && r.E() && r.p == r.tok.size(); }
};
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullBuf;
// 1 accepted, 0 rejected, -1 anything else; the exit status the scanner asks for on an unknown character is 2
static int real(const std::string &s, std::shared_ptr<const TRE> *out = nullptr) {
  static std::stringstream *ss; // survives the longjmp
  static TREDriver *drv;
  ss = new std::stringstream;
  drv = new TREDriver;
  *ss << s;
  vpExitArmed = 1;
  if (setjmp(vpExitJmp)) { vpExitArmed = 0; return vpExitCode == 2 ? 0 : -1; }
  bool ok = drv->parse(*ss);
  vpExitArmed = 0;
  if (ok && out) *out = drv->getResult();
  if (ok && !drv->getResult()) return -1;
  delete drv;
  delete ss;
  return ok;
}
struct Space { std::string name, pre; std::vector<std::string> toks; std::string post; int len; };
static std::vector<Space> spaces;
struct Chunk { int sp; int first, second; };
static void check(uint64_t c, const std::string &s) {
  int got = real(s);
  bool want = Ref::accepts(s);
  count(STATES); count(EVALS); count(TRACES); count(TRANSITIONS, s.size());
  if (want) count(NONTRIVIAL);
  if (got != (want ? 1 : 0)) fail(c, "parse", s, std::string(got == 1 ? "accepted" : got == 0 ? "rejected" : "neither accepted nor rejected") + ", the grammar says " + (want ? "accept" : "reject"));
}
static std::string spaced(const std::string &s, int how) { // blanks between all tokens, after every k-th, ...
  Ref r;
  r.lex(s);
  std::string o = how == 2 ? "\t " : "";
  for (size_t i = 0; i < r.tok.size(); i++) { o += r.tok[i]; if (how == 1 || how == 2 || (how == 3 && i % 2)) o += how == 2 ? " \t" : " "; }
  return o;
}
struct Form { const char *pre, *mid, *post; bool two; bool lc, hc; int kind; }; // kind 0 both, 1 upper only, 2 lower only, 3 point
static const Form forms[] = {{"(", ",", ")", true, false, false, 0}, {"[", ",", ")", true, true, false, 0}, {"(", ",", "]", true, false, true, 0}, {"[", ",", "]", true, true, true, 0},
                             {"<", "", "", false, true, false, 1}, {"<=", "", "", false, true, true, 1}, {"=", "", "", false, true, true, 3}, {">=", "", "", false, true, false, 2}, {">", "", "", false, false, false, 2}};
static void interval(uint64_t c, const Form &f, long lo, long hi, int parens, int sp, const char *loText) {
  std::string t = "a%";
  for (int i = 0; i < parens; i++) t += "(";
  t += f.pre + std::string(loText ? loText : std::to_string(lo).c_str());
  if (f.two) t += f.mid + std::to_string(hi) + f.post;
  for (int i = 0; i < parens; i++) t += ")";
  if (sp) t = spaced(t, sp);
  phase(t);
  std::shared_ptr<const TRE> tre;
  count(TRACES);
  if (real(t, &tre) != 1) { fail(c, "parse", t, "not accepted"); return; }
  TimedAutomaton R;
  tre->toEventTA(R);
  std::string err;
  TA A = fromRepo(R, err, lo <= hi); // an empty interval makes a guard nobody can pass
  if (!err.empty()) { fail(c, "malformed", t, err); return; }
  double L = f.kind == 1 ? 0 : lo, H = f.kind == 1 ? lo : f.kind == 3 ? lo : f.kind == 2 ? 1e300 : hi;
  for (double b : {(double)lo, (double)hi, 0.0, 5.0})
    for (double d : {-0.25, 0.0, 0.25}) {
      double v = b + d;
      if (v <= 0) continue;
      bool want = (f.lc ? v >= L : v > L) && (f.hc ? v <= H : v < H);
      bool got = false; // the timed word (a,v): one transition from an initial state
      for (auto &e : A.e) {
        bool ok = A.acc[e.d] && e.a == 'a' && std::find(A.init.begin(), A.init.end(), e.s) != A.init.end();
        for (auto &g : e.g) ok = ok && (g.op == LT ? v < g.c : g.op == LE ? v <= g.c : g.op == GT ? v > g.c : v >= g.c);
        got = got || ok;
      }
      count(EVALS); count(TRANSITIONS); count(STATES);
      if (want) count(NONTRIVIAL);
      if (got != want) fail(c, "interval", t, "a after " + std::to_string(v) + (got ? " accepted" : " not accepted"));
    }
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  bool th = o.tier == "thorough";
  std::cerr.rdbuf(&nullBuf);
  auto chars = [](const char *s) { std::vector<std::string> v; for (; *s; s++) v.push_back(std::string(1, *s)); return v; };
  spaces.push_back({"operators", "", {"a", "(", ")", "+", "|", "&", "%", "<1"}, "", th ? 8 : 7});
  spaces.push_back({"letters and operators", "", {"a", "$", "(", ")", "+", "*", "|", "&", "%", "(1,2]", "=1", "(>1)"}, "", th ? 6 : 5});
  spaces.push_back({"interval tokens", "a%", {"(", ")", "[", "]", ",", "<", ">", "=", "1", "20", "<=", ">="}, "", th ? 7 : 6});
  spaces.push_back({"interval tokens inside", "(a%", {"(", ")", "[", "]", ",", "<", "=", "1", "a"}, "", th ? 7 : 6});
  spaces.push_back({"characters", "", chars("aZ$()+*|&%<>=[],07 \t!\x80"), "", th ? 5 : 4});
  spaces.push_back({"interval characters", "b%", chars("()[],<>=1 2a"), "", th ? 6 : 5});
  spaces.push_back({"interval between blanks", "a %\t(", chars("(),<=1 2]"), ") ", th ? 6 : 5});
  std::vector<Chunk> chunks;
  for (size_t i = 0; i < spaces.size(); i++) for (size_t a = 0; a < spaces[i].toks.size(); a++) for (size_t b = 0; b < spaces[i].toks.size(); b++) chunks.push_back({(int)i, (int)a, (int)b});
  uint64_t n1 = chunks.size();
  std::vector<long> consts = {0, 1, 2, 9, 10, 12, 99, 100, 345, 1000, 65536, 2147483647};
  return runPool(o, n1 + consts.size() + 2, [&](uint64_t c) {
    if (c < n1) {
      auto &k = chunks[c];
      auto &sp = spaces[k.sp];
      phase(sp.name + " " + sp.toks[k.first] + sp.toks[k.second]);
      if (k.second == 0) { check(c, sp.pre + sp.toks[k.first] + sp.post); if (k.first == 0) { check(c, sp.pre + sp.post); sample(sp.name); } }
      std::vector<int> ix;
      std::string s;
      std::function<void(const std::string &, int)> rec = [&](const std::string &t, int len) {
        phase(t);
        check(c, t + sp.post);
        if (Ref::accepts(t + sp.post)) {
          for (int h = 1; h <= 3; h++) check(c, spaced(t + sp.post, h));
          check(c, t + sp.post + "\n");
        }
        if (len == sp.len) return;
        for (auto &x : sp.toks) rec(t + x, len + 1);
      };
      rec(sp.pre + sp.toks[k.first] + sp.toks[k.second], 2);
      return;
    }
    c -= n1;
    if (c < consts.size()) {
      long lo = consts[c];
      for (auto &f : forms)
        for (long hi : consts)
          for (int parens = 0; parens < 3; parens++)
            for (int sp = 0; sp < 3; sp++) {
              if (!f.two && hi != consts[0]) continue;
              interval(n1 + c, f, lo, f.two ? hi : lo, parens, sp, nullptr);
              if (lo < 1000) interval(n1 + c, f, lo, f.two ? hi : lo, parens, sp, ("00" + std::to_string(lo)).c_str());
            }
      return;
    }
    c -= consts.size();
    if (c == 0) // every byte, alone and between letters
      for (int b = 0; b < 256; b++) {
        if (b == '\n') continue; // ends the expression
        std::string s(1, (char)b);
        check(n1 + c, s); check(n1 + c, "a" + s + "b"); check(n1 + c, "a%(1," + s + ")"); check(n1 + c, s + "a"); check(n1 + c, "a" + s);
        if (!isalpha(b) && b != '$') continue;
        std::shared_ptr<const TRE> tre;
        if (real(s, &tre) != 1) continue;
        TimedAutomaton R;
        tre->toEventTA(R);
        std::string err;
        TA A = fromRepo(R, err);
        if (A.e.size() != 1 || A.e[0].a != (char)b) fail(n1 + c, "letter", s, "not compiled to its letter");
      }
    else { // numbers that do not fit, long and deep texts
      for (const char *n : {"2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "99999999999999999999", "02147483648"})
        for (auto &f : forms) { check(n1 + c, std::string("a%") + f.pre + n + (f.two ? std::string(",") + n + f.post : "")); if (f.two) check(n1 + c, std::string("a%") + f.pre + "1," + n + f.post); }
      for (int d : {10, 100, 1000}) {
        std::string l(d, '('), r(d, ')');
        check(n1 + c, l + "a" + r); check(n1 + c, l + "a" + r + ")"); check(n1 + c, l + "(a" + r);
        check(n1 + c, std::string(d, 'a')); check(n1 + c, "a" + std::string(d, '+')); check(n1 + c, "a" + std::string(d, '*')); check(n1 + c, "a%" + l + "<1" + r);
        std::string alt = "a";
        for (int i = 0; i < d; i++) alt += i % 2 ? "|a" : "&b";
        check(n1 + c, alt); check(n1 + c, alt + "|");
      }
    }
  }, [&](uint64_t c) { return c < n1 ? spaces[chunks[c].sp].name + " from " + spaces[chunks[c].sp].toks[chunks[c].first] + spaces[chunks[c].sp].toks[chunks[c].second] : "intervals or bytes " + std::to_string(c - n1); });
}
