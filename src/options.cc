// Every combination of options, sources of pattern and log and kinds of content:
// exit status, streams and output against the manual.
#include "cli.hh"
using namespace vp;
struct Content { std::string name; int bad; }; // bad: exit status it calls for
struct Case {
  std::vector<std::string> args; // @x@ stand for files of the working directory
  std::string in;                // standard input: a file, or "" for nothing
  std::set<int> codes;           // admissible exit statuses
  bool help = false, version = false, quiet = false;
  std::string expect;            // "" or the key of an expected result
  std::string name;
  bool t2 = false;
  std::string outFile;
};
static std::vector<Case> cases;
static const char *DOT = "digraph G {\n 1 [init=1, match=0]\n 2 [init=0, match=0]\n 3 [init=0, match=1]\n 1->2 [label=\"a\", guard=\"{x0 < 3}\", reset=\"{0}\"]\n 2->3 [label=\"$\", guard=\"{x0 <= 2}\"]\n}\n";
static const char *EXPR = "a%(0,3)$";
static std::map<std::string, std::string> files() {
  std::map<std::string, std::string> f;
  std::string bin;
  struct { char c; double t; } rec[] = {{'a', 0.5}, {'b', 1.25}, {'a', 3}, {'a', 1000000.5}};
  std::string txt;
  for (auto &r : rec) { char b[64]; snprintf(b, sizeof b, "%c %.10g\n", r.c, r.t); txt += b; char k[9]; k[0] = r.c; memcpy(k + 1, &r.t, 8); bin.append(k, 9); }
  f["log.txt"] = txt;
  f["log.bin"] = bin;
  f["empty"] = "";
  f["p.dot"] = DOT;
  f["bad.dot"] = "digraph G {\n 1 [init=1, match=0]\n 1->2 [label=\"a\", guard=\"{x0 < }\"]\n}\n";
  f["noise.dot"] = "this is not an automaton";
  f["many.dot"] = "digraph G {\n 1 [init=1, match=0]\n 2 [init=0, match=0]\n 3 [init=0, match=1]\n 1->2 [label=\"a\", guard=\"{x255 < 3}\", reset=\"{255}\"]\n 2->3 [label=\"$\", guard=\"{x255 <= 2}\"]\n}\n";
  f["undirected.dot"] = "graph G { 1 -- 2 }";
  return f;
}
static std::string expand(const std::string &a) {
  std::string r = a;
  for (size_t p; (p = r.find('@')) != std::string::npos;) { size_t q = r.find('@', p + 1); r = r.substr(0, p) + tmpDir() + "/" + r.substr(p + 1, q - p - 1) + r.substr(q + 1); }
  return r;
}
static void build(bool th) {
  struct Pat { std::string name; std::vector<std::string> before, positional; int bad; bool none, file, expr; };
  std::vector<Pat> pats = {
      {"no pattern", {}, {}, 0, true, false, false},
      {"-e", {"-e", EXPR}, {}, 0, false, false, true},
      {"--expression=", {std::string("--expression=") + EXPR}, {}, 0, false, false, true},
      {"positional", {}, {EXPR}, 0, false, false, true},
      {"-f", {"-f", "@p.dot@"}, {}, 0, false, true, false},
      {"--automaton", {"--automaton", "@p.dot@"}, {}, 0, false, true, false},
      {"both", {"-e", EXPR, "-f", "@p.dot@"}, {}, 1, false, true, true},
      {"-e bad", {"-e", "a%("}, {}, 2, false, false, true},
      {"-e odd character", {"-e", "a!b"}, {}, 2, false, false, true},
      {"positional bad", {}, {"a)"}, 2, false, false, true},
      {"-e sum too large", {"-e", "a%(1,3)a%>2147483647"}, {}, 0, false, false, true}, // cannot be translated in signal mode
      {"-f missing", {"-f", "@nothing.dot@"}, {}, 1, false, true, false},
      {"-f bad guard", {"-f", "@bad.dot@"}, {}, 2, false, true, false},
      {"-f noise", {"-f", "@noise.dot@"}, {}, 2, false, true, false},
      {"-f many clocks", {"-f", "@many.dot@"}, {}, 2, false, true, false},
      {"-f empty", {"-f", "@empty@"}, {}, 2, false, true, false},
      {"-f undirected", {"-f", "@undirected.dot@"}, {}, 2, false, true, false},
      {"-e without value", {"-e"}, {}, 1, false, false, true},
      {"unknown option", {"--frobnicate", "-e", EXPR}, {}, 1, false, false, true},
      {"-e twice", {"-e", EXPR, "-e", EXPR}, {}, 1, false, false, true},
  };
  struct Log { std::string name; std::vector<std::string> opt, positional; std::string in; int bad; bool bin, empty; };
  std::vector<Log> logs = {
      {"stdin", {}, {}, "@log.txt@", 0, false, false}, {"stdin binary", {}, {}, "@log.bin@", 0, true, false}, {"empty stdin", {}, {}, "", 0, false, true},
      {"-i", {"-i", "@log.txt@"}, {}, "", 0, false, false}, {"-i binary", {"-i", "@log.bin@"}, {}, "", 0, true, false}, {"--input=", {"--input=@log.txt@"}, {}, "@empty@", 0, false, false},
      {"positional", {}, {"@log.txt@"}, "", 0, false, false}, {"positional binary", {}, {"@log.bin@"}, "", 0, true, false}, {"-i empty", {"-i", "@empty@"}, {}, "@log.txt@", 0, false, true},
      {"-i missing", {"-i", "@nothing@"}, {}, "@log.txt@", 1, false, false}, {"positional missing", {}, {"@nothing@"}, "@log.txt@", 1, false, false}};
  std::vector<std::vector<std::string>> fmts = {{}, {"-a"}, {"--ascii"}, {"-b"}, {"--binary"}, {"-a", "-b"}};
  std::vector<std::vector<std::string>> modes = {{}, {"-E"}, {"--event"}, {"-S"}, {"-S", "-E"}};
  std::vector<std::vector<std::string>> quiets = {{}, {"-q"}, {"--quiet"}};
  std::vector<std::vector<std::string>> infos = {{}, {"-h"}, {"--help"}, {"-V"}, {"--version"}, {"-h", "-V"}};
  for (auto &p : pats) for (auto &l : logs) for (auto &f : fmts) for (auto &m : modes) for (auto &q : quiets) for (auto &i : infos) {
    if (!th && (q.size() ? q[0].size() : 0) > 2 && (f.size() + m.size() + i.size()) > 1) continue; // long option names: alone
    if (!th && i.size() && (l.name != "stdin" && l.name != "-i missing")) continue;
    for (int order = 0; order < 3; order++) { // options before, after, around the positional arguments
      if (order && p.positional.empty() && l.positional.empty()) continue;
      if (order && !th && (i.size() || q.size())) continue;
      if (p.none && !l.positional.empty()) continue; // the first positional argument would be the pattern
      Case c;
      std::vector<std::string> opts, pos;
      for (auto *v : {&f, &m, &q, &i, &l.opt}) opts.insert(opts.end(), v->begin(), v->end());
      pos.insert(pos.end(), p.positional.begin(), p.positional.end());
      pos.insert(pos.end(), l.positional.begin(), l.positional.end());
      if (p.name == "-e without value") { if (order || !pos.empty()) continue; opts.push_back("-e"); } // last on the line
      else opts.insert(opts.begin(), p.before.begin(), p.before.end());
      if (order == 1) std::swap(opts, pos);
      if (order == 2 && opts.size() && pos.size()) { // an option of one word moved behind
        if (f.size() == 1) { pos.push_back(f[0]); opts.erase(std::find(opts.begin(), opts.end(), f[0])); } else continue;
      }
      c.args = opts;
      c.args.insert(c.args.end(), pos.begin(), pos.end());
      c.in = l.in;
      bool syntax = p.name == "-e without value" || p.name == "unknown option" || p.name == "-e twice";
      bool sig = !m.empty() && m[0] == "-S" && m.size() == 1;
      bool bin = f.size() == 1 && (f[0] == "-b" || f[0] == "--binary");
      if (syntax) c.codes = {1};
      else if (!i.empty() && i.back() != "-h" && i.back() != "--help") { c.codes = {0}; c.version = true; }
      else if (!i.empty() || p.none) { c.codes = {0}; c.help = true; }
      else {
        if (f.size() > 1 || m.size() > 1) c.codes.insert(1);
        bool large = p.name == "-e sum too large";
        if (p.bad) c.codes.insert(p.bad);
        if (large && sig) c.codes.insert(2);
        if (sig && p.file) c.codes.insert(1);
        if (l.bad) c.codes.insert(l.bad);
        if (c.codes.empty()) {
          c.codes = {0};
          bool mismatch = !l.empty && l.bin != bin; // bytes read in the wrong format
          c.quiet = !q.empty();
          if (!mismatch && !large) c.expect = std::string(p.file ? "file" : "expr") + (sig ? " signal" : " event") + (l.empty ? " empty" : " log");
        }
      }
      c.name = p.name + ", log " + l.name;
      cases.push_back(c);
    }
  }
  // a clock for each of 300 nested intervals
  std::string nested = "a";
  for (int i = 0; i < 300; i++) nested += "%<2";
  { Case c; c.args = {"-e", nested + "$"}; c.codes = {2}; c.name = "-e many clocks"; cases.push_back(c); }
  // tre2ta
  struct T { std::vector<std::string> a; int bad; bool none; };
  std::vector<T> ts = {{{"-e", EXPR}, 0, false}, {{EXPR}, 0, false}, {{std::string("--expression=") + EXPR}, 0, false}, {{}, 0, true}, {{"-e", "a%("}, 2, false}, {{"a)"}, 2, false}, {{"a!"}, 2, false}, {{nested}, 2, false}, {{"--frobnicate"}, 1, false}, {{"-e", EXPR, "-e", EXPR}, 1, false}};
  for (auto &t : ts) for (int out = 0; out < 4; out++) for (auto &i : infos) {
    Case c;
    c.t2 = true;
    if (out == 1) { c.args = {"-o", "@out.dot@"}; c.outFile = "@out.dot@"; }
    if (out == 2) { c.args = {"--output=@out.dot@"}; c.outFile = "@out.dot@"; }
    if (out == 3) c.args = {"-o", "@nowhere/out.dot@"};
    c.args.insert(c.args.end(), i.begin(), i.end());
    c.args.insert(c.args.end(), t.a.begin(), t.a.end());
    if (t.bad == 1) c.codes = {1};
    else if (!i.empty() && i.back() != "-h" && i.back() != "--help") { c.codes = {0}; c.version = true; }
    else if (!i.empty() || t.none) { c.codes = {0}; c.help = true; }
    else {
      if (t.bad) c.codes.insert(t.bad);
      if (out == 3) c.codes.insert(1);
      if (c.codes.empty()) { c.codes = {0}; c.expect = "tre2ta"; }
    }
    c.name = "tre2ta";
    cases.push_back(c);
  }
}
int main(int argc, char **argv) {
  Options o = parseArgs(argc, argv);
  build(o.tier == "thorough");
  if (o.only < 0) printf("invocations %zu\n", cases.size());
  const std::string monaa = envOr("VP_MONAA"), tre2ta = envOr("VP_TRE2TA");
  const uint64_t CH = 8;
  return runPool(o, (cases.size() + CH - 1) / CH, [&](uint64_t ch) {
    static std::map<std::string, std::string> expected;
    if (expected.empty()) {
      for (auto &f : files()) writeFile(tmpDir() + "/" + f.first, f.second);
      // the plain invocations everything else is compared with
      for (int e = 0; e < 2; e++) {
        expected["expr event log"] = runCli({monaa, "-e", EXPR, "-i", expand("@log.txt@")}, "").out;
        expected["expr event empty"] = runCli({monaa, "-e", EXPR, "-i", expand("@empty@")}, "").out;
        expected["file event log"] = runCli({monaa, "-f", expand("@p.dot@"), "-i", expand("@log.txt@")}, "").out;
        expected["file event empty"] = runCli({monaa, "-f", expand("@p.dot@"), "-i", expand("@empty@")}, "").out;
        expected["expr signal log"] = runCli({monaa, "-S", "-e", EXPR, "-i", expand("@log.txt@")}, "").out;
        expected["expr signal empty"] = runCli({monaa, "-S", "-e", EXPR, "-i", expand("@empty@")}, "").out;
        expected["tre2ta"] = runCli({tre2ta, "-e", EXPR}, "").out;
      }
      if (expected["expr event log"].empty() || expected["file event log"].empty() || expected["tre2ta"].empty()) fail(ch, "output", "plain invocation", "a plain invocation with matches prints nothing");
    }
    for (uint64_t i = ch * CH; i < std::min<uint64_t>(cases.size(), ch * CH + CH); i++) {
      auto &c = cases[i];
      std::vector<std::string> a = {c.t2 ? tre2ta : monaa};
      std::string line = c.t2 ? "tre2ta" : "monaa";
      for (auto &x : c.args) { a.push_back(expand(x)); line += " " + x; }
      line += c.in.empty() ? "" : " < " + c.in;
      phase(line);
      std::string of = c.outFile.empty() ? "" : expand(c.outFile);
      if (!of.empty()) unlink(of.c_str());
      Res r = runCli(a, expand(c.in), 20);
      count(STATES); count(TRANSITIONS); count(TRACES); count(EVALS);
      std::string want;
      for (int k : c.codes) want += (want.empty() ? "" : " or ") + std::to_string(k);
      if (!c.codes.count(r.status)) { fail(ch, "status", line, "exit status " + std::to_string(r.status) + " instead of " + want + "; stderr: " + r.err.substr(0, 200)); continue; }
      if (r.status) {
        if (!r.out.empty()) fail(ch, "stdout", line, "an error, but standard output has " + r.out.substr(0, 100));
        if (r.err.empty()) fail(ch, "stderr", line, "an error without a message");
        continue;
      }
      count(NONTRIVIAL);
      if (c.version) { if (r.out.find("MONAA") == std::string::npos || r.out.find("Copyright") == std::string::npos) fail(ch, "version", line, "no version text: " + r.out.substr(0, 100)); continue; }
      if (c.help) { if (r.out.find("--help") == std::string::npos || r.out.find("OPTIONS") == std::string::npos) fail(ch, "help", line, "no help text: " + r.out.substr(0, 100)); continue; }
      if (c.quiet) { if (!r.out.empty()) fail(ch, "quiet", line, "output in spite of -q: " + r.out.substr(0, 100)); continue; }
      if (c.expect.empty()) continue;
      std::string got = of.empty() ? r.out : readFile(of);
      if (!of.empty() && !r.out.empty()) fail(ch, "output", line, "output on standard output although a file is given");
      if (got != expected[c.expect]) fail(ch, "output", line, "output differs from the plain invocation (" + c.expect + "): " + got.substr(0, 200));
      if (i % 97 == 0) sample(line);
    }
  }, [&](uint64_t ch) { std::string l; for (auto &x : cases[ch * CH].args) l += x + " "; return l + "and following"; });
}
