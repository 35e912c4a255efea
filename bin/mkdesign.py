"""DESIGN.md from doc/DESIGN.in.md, checks.py, known_findings.txt and doc/seeds.txt."""
import json, os, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
# id: (enumerated and monitored, oracle, cost of the quick tier, why tests cannot)
T["M01"] = ("Pattern families of `src/families.hh` (chains, two-clock chains, all small graphs, unions with overlapping prefixes, zero-event patterns, parallel transitions), each on a log that contains every window of the bounded length as a factor, and small families on every short log by itself. `monaaDollar` is run on the whole log, its zones are collected through the answer container and compared as point sets.",
            "`src/ta.hh`: runs of the automaton on every window, on the quarter grid.", "60 s")
T["M02"] = ("The same families for `monaa()`, plus patterns with unobservable transitions (chains, cycles, several between two events, open guards).", "`src/ta.hh`, last segment possibly cut; unobservable transitions at grid times between the events.", "120 s")
T["M03"] = ("The same families with accepting states also inside the pattern, for `monaaNotNecessaryDollar`.", "`src/ta.hh`, acceptance by the event or by `$`.", "50 s")
T["M04"] = ("The environment is explored: the matcher runs on a container that decides about the next event (which letter, which gap, or the end of the log) only when it is asked, by forking one process per choice. So every log up to the depth is explored as a tree with shared prefixes, and what has been reported when a choice is made is known. The container checks the fetch/release protocol at every access.",
            "Protocol automaton in `SpyDeque`; the liveness of runs by the region graph; prefix independence by comparing siblings in the tree; a streamed run of the real reader for leaves chosen equally spaced.", "150 s")
T["M05"] = ("Every pattern in about 30 representations (orders of states, addresses, initial states, transitions, clocks; unused clocks; redundant guards; unreachable, dead and duplicated parts; scaled and shifted time).", "The pattern as given (metamorphic).", "170 s")
T["S01"] = ("For every pattern the Sunday-type table (length `m`, shift for each letter) and the KMP-type tables (shift for each set of states).", "Region graph for `m` and letters per position; for shifts, the matches of the oracle on every log up to the length: no beginning that is jumped over may have a match.", "100 s")
T["Z01"] = ("The zone automaton of every automaton, explored together with the region graph by a simultaneous subset construction to a fixed point, so untimed words of every length are covered; once as built and once after `removeDeadStates`; `empty()`. Termination by time limit.", "Region graph with strictly positive delays.", "5 s")
T["Z02"] = ("Breadth-first exploration of all sequences of operations on `Zone` (tighten, reset, elapse, canonise, intersect, abstract, isSatisfiable, makeGuard); states (real matrix, set of valuations) merged when equal.", "Set of valuations on a grid, operations applied pointwise.", "55 s")
T["Z03"] = ("Breadth-first exploration of all sequences alloc / tighten / deallocate / satisfiability / toAns on `IntermediateZone`, as the matchers use them.", "Plain difference-bound matrix over all variables ever introduced, projected.", "15 s")
T["I01"] = ("All intervals within the bounds, all pairs, all sequences of `land`, `+` and `plus` on unions.", "The integers and unit gaps a set contains.", "2 s")
T["T01"] = ("All expressions with up to 3 (some 4) operators; the event automaton of each on all timed words of the bounded length; well-formedness of the automaton.", "`src/tre_oracle.hh`: denotation by recursion over splits.", "8 s")
T["T02"] = ("Expression text through parser, compiler and matcher, on logs; `$` anywhere.", "Denotation of the expression on the segments with `$` at t', without automata.", "100 to 180 s")
T["T03"] = ("All pairs of automata of the families; re-selection of initial and accepting states (`updateInitAccepting`).", "A timed word is in both factors (`src/ta.hh`).", "35 s")
T["T04"] = ("All signal expressions with up to 3 operators through `toSignalTA`, on all signals with up to 3 segments with lengths at multiples of 1/2.", "Denotation of signal expressions by recursion over splits of the signal, a letter being a constant segment of positive length.", "15 s")
T["T05"] = ("Signal expressions through parser, `toSignalTA` and `monaa()`, on every short log without repeated letters.", "Denotation of signal expressions (`src/sig.hh`) for all parts of the log at once; no automata.", "60 s")
T["P01"] = ("All texts over token alphabets up to the length, with blanks between tokens in three layouts; all single bytes in contexts; trees spelt out and read back.", "A recogniser of the documented grammar; the tree.", "20 s")
T["D01"] = ("All small automata written in every rendering of a style space (order of statements, quoting, optional attributes, node names, comments), all short texts as guard, reset list, label and flag, all truncations.", "A reader written from the manual and the examples.", "20 s")
T["C01"] = ("The product of options, pattern sources and log sources on the built programs.", "The manual: exit status, and the output of the plain invocation.", "25 s")
T["C02"] = ("Every expression with up to 3 operators: the DOT text is read back by the pattern reader and its language compared on all words; the programs `tre2ta | monaa -f` against `monaa -e`.", "Denotation of expressions; matches of the expression.", "25 s")
T["C03"] = ("The built program on pattern files and logs in 8 combinations of time scale and shift; its text read as a union of sets.", "`src/ta.hh`, scaled.", "70 s")
T["L01"] = ("Every sequence of operations (fetch, [], at, setFront, size) of the bounded length on every log, cut at every byte, in ASCII layouts and binary, and arriving line by line through a pipe (delivered before later input is written).", "A reader over the list of complete records.", "12 s")
T["R01"] = ("All short byte strings over critical alphabets as expression, DOT file and log, through everything up to printing, in event and in signal mode; AddressSanitizer and UBSan as monitors; time limit.", "The monitors, and the exit statuses of the manual.", "275 s")
ORDER = [x for x in "M01 M02 M03 M04 M05 S01 Z01 Z02 Z03 I01 T01 T02 T03 T04 T05 P01 D01 C01 C02 C03 L01 R01".split() if x in CHECKS]
try:
    from design_more import MORE
    T.update(MORE)
except ImportError:
    pass
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(root, "properties.jsonl"))}
out = []
for i in ORDER:
    e, o, c = T[i]
    src = ", ".join("`src/%s%s`" % (r["src"], " " + " ".join(r["args"]) if r.get("args") else "") for r in CHECKS[i]["runs"])
    b = CHECKS[i]["bounds"]
    b = b["quick"] if isinstance(b, dict) else b
    out.append(f"### {i}: {titles[i]}\n\n*Explored.* {e}\n*Oracle.* {o}\n*Bounds (quick).* {b}.\n*Harness.* {src}. *Cost.* {c}.\n")
kf = []
for l in open(os.path.join(root, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l.strip())
    if m:
        kf.append("* %s (%s): %s" % m.groups())
seeds = open(os.path.join(root, "doc", "seeds.txt")).read()
t = open(os.path.join(root, "doc", "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", "\n".join(kf)).replace("@@SEEDS@@", seeds)
open(os.path.join(root, "DESIGN.md"), "w").write(t)
