// A deterministic case pool: cases 0..n-1 are distributed over forked workers.
// A worker that dies (signal, exit, sanitizer abort) or hangs is attributed to
// the case it was running, and the remaining cases go on in a fresh worker.
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include <csetjmp>

// The library reports an empty pattern with exit(10). The harness is linked
// with -Wl,--wrap=exit so that this comes back as an observation.
static jmp_buf vpExitJmp;
static volatile int vpExitArmed = 0;
static volatile int vpExitCode = 0;
extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int c) {
  if (vpExitArmed) { vpExitCode = c; longjmp(vpExitJmp, 1); }
  __real_exit(c);
}

namespace vp {

enum Counter { STATES, TRANSITIONS, TRACES, EVALS, NONTRIVIAL, MATCHES, AUX1, AUX2, AUX3, AUX4, NCOUNTERS };

struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<uint64_t> counters[NCOUNTERS];
  std::atomic<uint64_t> failures;
  std::atomic<uint64_t> samples;
  struct Slot {
    std::atomic<int64_t> current; // case index, -1 idle
    std::atomic<int64_t> started; // ms
    char phase[1024];             // what the case is doing right now
  } slot[64];
};

static Shared *shared = nullptr;
static int mySlot = 0;
static std::string outDir;
static bool replayMode = false;
static uint64_t maxFailures = 200;

static inline int64_t nowMs() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
}

static inline std::string jsonEscape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static inline void appendLine(const char *file, const std::string &line) {
  std::string path = outDir + "/" + file;
  int fd = open(path.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) { perror(path.c_str()); _exit(77); }
  std::string l = line + "\n";
  if (write(fd, l.data(), l.size()) != (ssize_t)l.size()) _exit(77);
  close(fd);
}

static inline void count(Counter c, uint64_t n = 1) { shared->counters[c] += n; }

static inline void phase(const std::string &s) {
  strncpy(shared->slot[mySlot].phase, s.c_str(), sizeof(shared->slot[mySlot].phase) - 1);
}

// `input` identifies the specific failing input (this is what a known finding
// is matched on), `detail` explains the disagreement.
static inline void fail(int64_t idx, const std::string &kind, const std::string &input, const std::string &detail) {
  uint64_t k = shared->failures++;
  if (k >= maxFailures) return;
  appendLine("failures.jsonl", "{\"case\":" + std::to_string(idx) + ",\"kind\":\"" + jsonEscape(kind) + "\",\"input\":\"" +
                                   jsonEscape(input) + "\",\"detail\":\"" + jsonEscape(detail) + "\"}");
}

static inline void sample(const std::string &s, uint64_t limit = 6) {
  if (shared->samples++ < limit) appendLine("samples.jsonl", "\"" + jsonEscape(s) + "\"");
}

struct Options {
  std::string tier = "quick";
  int workers = 8;
  int64_t only = -1, from = 0;
  double hangSeconds = 20;
  double budgetSeconds = 1e9; // stop handing out new cases after this (a reported cap)
  std::vector<std::string> rest;
};

static inline Options parseArgs(int argc, char **argv) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") o.tier = argv[++i];
    else if (a == "--out") outDir = argv[++i];
    else if (a == "--workers") o.workers = atoi(argv[++i]);
    else if (a == "--case") o.only = atoll(argv[++i]);
    else if (a == "--from") o.from = atoll(argv[++i]); // debugging only
    else if (a == "--hang") o.hangSeconds = atof(argv[++i]);
    else if (a == "--budget") o.budgetSeconds = atof(argv[++i]);
    else o.rest.push_back(a);
  }
  if (outDir.empty()) outDir = ".";
  if (o.workers > 60) o.workers = 60;
  return o;
}

static inline void writeSummary(uint64_t total, uint64_t done, bool capped) {
  static const char *names[] = {"states", "transitions", "traces", "evals", "nontrivial", "matches", "aux1", "aux2", "aux3", "aux4"};
  FILE *f = fopen((outDir + "/summary.json").c_str(), "w");
  fprintf(f, "{\"cases_total\":%llu,\"cases_done\":%llu,\"capped\":%s,\"failures\":%llu", (unsigned long long)total,
          (unsigned long long)done, capped ? "true" : "false", (unsigned long long)shared->failures.load());
  for (int i = 0; i < NCOUNTERS; i++) fprintf(f, ",\"%s\":%llu", names[i], (unsigned long long)shared->counters[i].load());
  fprintf(f, "}\n");
  fclose(f);
}

// describe(i) must be pure and cheap; body(i) runs the case.
static inline int runPool(const Options &o, uint64_t n, const std::function<void(uint64_t)> &body,
                          const std::function<std::string(uint64_t)> &describe) {
  shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)shared, 0, sizeof(Shared));
  unlink((outDir + "/failures.jsonl").c_str());
  unlink((outDir + "/samples.jsonl").c_str());
  if (o.only >= 0) replayMode = true;
  int W = o.only >= 0 ? 1 : o.workers;
  if (o.only >= 0) shared->next = o.only;
  else if (o.from) shared->next = o.from;
  uint64_t end = o.only >= 0 ? o.only + 1 : n;
  std::vector<pid_t> pids(W, 0);
  const int64_t t0 = nowMs();
  bool capped = false;
  uint64_t deaths = 0, hangs = 0;
  fflush(stdout);
  fflush(stderr);
  auto spawn = [&](int w) {
    shared->slot[w].current = -1;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(77); }
    if (p == 0) {
      mySlot = w;
      if (!replayMode) {
        int e = open((outDir + "/stderr." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0) { dup2(e, 2); close(e); }
        int d = open("/dev/null", O_WRONLY);
        dup2(d, 1);
      }
      for (;;) {
        if ((nowMs() - t0) / 1000.0 > o.budgetSeconds || (!replayMode && shared->failures > 150)) _exit(42); // enough evidence
        uint64_t i = shared->next++;
        if (i >= end) _exit(43);
        shared->slot[w].started = nowMs();
        shared->slot[w].phase[0] = 0;
        shared->slot[w].current = (int64_t)i;
        body(i);
        shared->slot[w].current = -1;
      }
    }
    pids[w] = p;
  };
  for (int w = 0; w < W; w++) spawn(w);
  int alive = W;
  std::vector<bool> killedHang(W, false);
  uint64_t unfinished = 0;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(20000);
      for (int w = 0; w < W; w++) {
        if (pids[w] && shared->slot[w].current >= 0 && !killedHang[w] &&
            (nowMs() - shared->slot[w].started) / 1000.0 > o.hangSeconds) {
          killedHang[w] = true;
          kill(pids[w], SIGKILL);
        }
      }
      continue;
    }
    if (p < 0) break;
    int w = -1;
    for (int k = 0; k < W; k++) if (pids[k] == p) w = k;
    if (w < 0) continue;
    pids[w] = 0;
    int64_t cur = shared->slot[w].current;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 43 || WEXITSTATUS(st) == 42) && cur < 0) {
      if (WEXITSTATUS(st) == 42) capped = true;
      alive--;
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "harness error\n"); exit(77); }
    if (cur < 0) { fprintf(stderr, "worker died outside a case (status %x)\n", st); exit(78); }
    std::string how;
    if (killedHang[w]) how = "hang";
    else if (WIFSIGNALED(st)) how = "signal " + std::to_string(WTERMSIG(st));
    else how = "exit " + std::to_string(WEXITSTATUS(st));
    std::string err;
    if (!replayMode) {
      FILE *f = fopen((outDir + "/stderr." + std::to_string(w)).c_str(), "r");
      if (f) { char b[3000]; if (fseek(f, -3000, SEEK_END)) rewind(f); size_t k = fread(b, 1, sizeof b, f); err.assign(b, k); fclose(f); }
    }
    unfinished++;
    fail(cur, how, describe(cur), std::string("died in phase: ") + shared->slot[w].phase + " stderr: " + err);
    if (killedHang[w]) hangs++;
    killedHang[w] = false;
    if (++deaths > 60 || hangs > 7) { capped = true; alive--; continue; } // enough evidence
    spawn(w);
  }
  uint64_t done = std::min<uint64_t>(shared->next.load(), end) - (o.only >= 0 ? o.only : 0);
  if (capped) capped = done < n || deaths > 60 || hangs > 7;
  writeSummary(end - (o.only >= 0 ? o.only : 0), done - std::min(done, unfinished), capped);
  return shared->failures ? 1 : 0;
}
} // namespace vp
