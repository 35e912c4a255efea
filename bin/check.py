#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, explores, replays whatever failed, and writes evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]
Exit 0: held on everything explored; 1: a VIOLATION line was printed."""
import glob, json, os, re, shutil, subprocess, sys, time, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS

CXX = "g++"
BASEFLAGS = ["-std=c++17", "-w", "-g0"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Builder:
    """Compiles /repo's sources (as they are now) and the harnesses."""

    def __init__(self, work):
        self.work = work
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)
        self.objs = {}
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(8)
        self.prepare_generated()

    def prepare_generated(self):
        for tool, out, src in (("bison", "tre_parser.tab.cc", "monaa/tre_parser.yy"), ("flex", "tre_lexer.yy.cc", "monaa/tre_lexer.l")):
            cmd = [tool] + (["-d"] if tool == "bison" else []) + ["-o", out, os.path.join(REPO, src)]
            r = run(cmd, cwd=self.gen)
            if r.returncode:
                raise BuildError(r.stdout)

    def includes(self):
        return ["-I" + os.path.join(VERIF, "src"), "-I" + REPO, "-I" + REPO + "/monaa", "-I" + REPO + "/libmonaa",
                "-I" + self.gen, "-I/usr/include/eigen3", '-DMONAA_VERSION="vp"']

    def sources(self):
        lib, mains = [], []
        for f in sorted(glob.glob(REPO + "/libmonaa/*.cc") + glob.glob(REPO + "/monaa/*.cc")):
            (mains if re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()) else lib).append(f)
        lib += sorted(glob.glob(self.gen + "/*.cc"))
        return lib, mains

    def compile(self, src, flags):
        key = (src, tuple(flags))
        with self.lock:
            if key not in self.objs:
                o = os.path.join(self.work, "%s.%d.o" % (os.path.basename(src), len(self.objs)))
                self.objs[key] = self.pool.submit(self._compile, src, flags, o)
            return self.objs[key]

    def _compile(self, src, flags, o):
        r = run([CXX] + BASEFLAGS + flags + self.includes() + ["-c", src, "-o", o])
        if r.returncode:
            raise BuildError(src + "\n" + r.stdout[-4000:])
        return o

    def link(self, name, mainsrc, flags, ldflags, libs=True):
        lib, _ = self.sources()
        futs = [self.compile(mainsrc, flags)] + ([self.compile(s, flags) for s in lib] if libs else [])
        objs = [f.result() for f in futs]
        exe = os.path.join(self.work, name)
        r = run([CXX] + flags + objs + ldflags + ["-o", exe])
        if r.returncode:
            raise BuildError(name + "\n" + r.stdout[-4000:])
        return exe

    def cli(self, flags):
        """the two executables of the repository, built from the working tree"""
        lib, mains = self.sources()
        res = {}
        for m in mains:
            n = os.path.basename(m)[:-3]
            n = {"main": "monaa"}.get(n, n)
            res[n] = self.link(n, m, flags, ["-lboost_program_options", "-lboost_graph"])
        return res


def load_jsonl(p):
    if not os.path.exists(p):
        return []
    out = []
    for l in open(p, errors="replace"):
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    return out


def known_findings():
    res = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("known: "):
            res.append(json.loads(l[7:]))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--replay":
            replay = json.load(open(a.pop(0)))
    spec = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(os.environ.get("VP_WORK", os.path.join(VERIF, "build")), prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evdir = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(evdir, "replay", prop + "-*.json")):
        os.unlink(f)
    b = Builder(work)
    exes, cli = {}, None
    try:
        futs = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for h in spec["runs"]:
                key = (h["src"], h.get("san", False))
                if key in futs or (h.get("thorough_only") and tier != "thorough"):
                    continue
                flags = list(h.get("flags", ["-O2"]))
                if h.get("san"):
                    flags = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
                name = h["src"][:-3] + (".san" if h.get("san") else "")
                futs[key] = ex.submit(b.link, name, os.path.join(VERIF, "src", h["src"]), flags,
                                      ["-Wl,--wrap=exit", "-lboost_graph", "-lpthread"] + h.get("ldflags", []))
            if spec.get("cli"):
                fc = ex.submit(b.cli, ["-O1"] if not spec.get("cli_san") else
                               ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
                cli = fc.result()
            for k, f in futs.items():
                exes[k] = f.result()
    except BuildError as e:
        sys.stderr.write("cannot build against the working tree:\n%s\n" % e)
        sys.exit(3)
    tb = time.time()

    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_segv=1", UBSAN_OPTIONS="print_stacktrace=0")
    if cli:
        for k, v in cli.items():
            env["VP_" + k.upper()] = v
    tot = {}
    samples, violations, runs, capped, known_hit = [], [], [], False, []
    known = [k for k in known_findings() if k["property"] == prop]
    nrep = 0
    for n, h in enumerate(spec["runs"]):
        if tier != "thorough" and h.get("thorough_only"):
            continue
        exe = exes[(h["src"], h.get("san", False))]
        out = os.path.join(work, "out%d" % n)
        os.makedirs(out)
        tmp = os.path.join(work, "tmp%d" % n)
        os.makedirs(tmp)
        env["VP_TMP"] = tmp
        hang = h.get("hang", 20)
        base = [exe, "--tier", tier, "--hang", str(hang)] + h.get("args", [])
        if replay is not None:
            if replay["run"] != n:
                continue
            r = subprocess.run(base + ["--out", out, "--case", str(replay["case"])], env=env)
            for f in load_jsonl(out + "/failures.jsonl"):
                print(json.dumps(f, indent=1))
            continue
        cap = h.get("cap", {"quick": 500, "thorough": 20000})[tier]
        t1 = time.time()
        r = subprocess.run(base + ["--out", out, "--workers", str(os.cpu_count() or 4), "--budget", str(cap)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(out + "/summary.json"):
            sys.stderr.write("harness error %d\n%s\n%s\n" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
            sys.exit(3)
        s = json.load(open(out + "/summary.json"))
        if s["cases_done"] == 0 or s["evals"] == 0:
            sys.stderr.write("harness explored nothing: %s\n" % s)
            sys.exit(3)
        capped = capped or s["capped"]
        for k, v in s.items():
            if isinstance(v, int) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        runs.append({"harness": h["src"], "args": h.get("args", []), "sanitized": bool(h.get("san")), "cases": s["cases_total"],
                     "completed": s["cases_done"], "capped": s["capped"], "wall_s": round(time.time() - t1, 2), "families": r.stdout.strip().split("\n")[:60]})
        samples += load_jsonl(out + "/samples.jsonl")
        # judge the failures: known ones are announced, others are replayed first
        fails = load_jsonl(out + "/failures.jsonl")
        cases = {}
        for f in fails:
            k = next((k for k in known if k.get("kind", f["kind"]) == f["kind"] and k["input"] == f["input"]), None)
            if k:
                if k not in known_hit:
                    known_hit.append(k)
            else:
                cases.setdefault(f["case"], []).append(f)
        confirmed = 0
        # judge fast failures first: replaying a hang takes long
        order = sorted(cases, key=lambda c: (any(f["kind"] == "hang" for f in cases[c]), c))
        for c in order[:12]:
            ro = os.path.join(out, "replay%d" % c)
            os.makedirs(ro, exist_ok=True)
            hb = [exe, "--tier", tier, "--hang", str(hang * (2 if hang < 200 else 1))] + h.get("args", [])
            try:
                subprocess.run(hb + ["--out", ro, "--case", str(c)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            except subprocess.TimeoutExpired:
                pass
            again = load_jsonl(ro + "/failures.jsonl")
            inputs = {f["input"] for f in again}
            same = [f for f in cases[c] if f["input"] in inputs] or (again if any(f["kind"] == "hang" or f["kind"].startswith(("signal", "exit")) for f in cases[c]) else [])
            if not same:
                continue
            confirmed += 1
            nrep += 1
            path = os.path.join(evdir, "replay", "%s-%d.json" % (prop, nrep))
            json.dump({"property": prop, "tier": tier, "run": n, "harness": h["src"], "args": h.get("args", []), "case": c,
                       "failures": same[:5], "replay": "python3 bin/check.py %s --tier %s --replay %s" % (prop, tier, path)}, open(path, "w"), indent=1)
            violations.append((path, same[0]))
            if confirmed >= 3 or same[0]["kind"] == "hang":
                break
        if cases and not confirmed:
            sys.stderr.write("failures that did not reproduce (not reported): %s\n" % json.dumps(fails[:3]))
        if violations and tier == "quick":
            break
    if replay is not None:
        return 0

    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    level = spec["level"]
    cov = {"samples": samples[:8] or ["(none)"], "exhaustive": not capped, "runs": runs, "build_s": round(tb - t0, 1),
           "cases": tot.get("cases_done", 0), "distinct_verdicts": {"with_matches_or_words": tot.get("nontrivial", 0), "total": tot.get("evals", 0)}}
    if level == "model_checking":
        cov.update(states=tot.get("states", 0), transitions=tot.get("transitions", 0), traces_validated_against_impl=tot.get("traces", 0))
    else:
        cov.update(evaluations=tot.get("evals", 0), distinct_nontrivial=tot.get("nontrivial", 0), rule=spec["rule"])
    cov["observations"] = tot.get("matches", 0)
    cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": spec.get("assumptions", []), "violations": len(violations)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if not os.environ.get("VP_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    for path, f in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s -- %s" % (f["kind"], f["input"][:400], f["detail"][:600]))
    if not violations:
        print("%s %s: held; %d cases, %d states, %d transitions, %d runs of the implementation, %.0f s" %
              (prop, tier, tot.get("cases_done", 0), tot.get("states", 0), tot.get("transitions", 0), tot.get("traces", 0), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
