"""What each check runs. `runs` are the harnesses (built against /repo), all of
them exhaustive enumerations of the stated bounds."""
TA_BOUNDS = ("patterns: every member of the listed automaton families (chains of up to 3 events with every letter/guard/reset, two-clock "
             "chains, every small graph incl. cycles, unions with two initial states, zero-event patterns); logs: one log containing every "
             "window of length 2..4 over 2 letters x 3 gaps; for families of < 700 patterns (thorough: < 6000) and every 37th pattern otherwise also every log "
             "of length <= 2 by itself; chains of 4 and 5 events (thorough: up to 7) with a constraint or a further transition between any two places, and with a clock per event, on logs with every window of letters; matches compared on the quarter grid")
GRID = ("timestamps and guard constants are integers and timestamps strictly increase; the answer is compared on the grid of quarter time units, which is "
        "exact for zones over (t,t') with integer bounds")
EXPL = "explicit-state bounded model checking of the implementation against a reference model"
NOTE = ("Exhaustive within the bounds stated in the evidence: every pattern of the families on every log; each answer of the real code is compared with an "
        "explicit-state reference. Trusts the reference (src/ta.hh, src/tre.hh), the compiler and that behaviours outside the bounds are alike.")
PRODUCT_BOUNDS = {"quick": "6 families of pairs (all graphs with 2 states and <= 2 edges over {a,b} with a guard alphabet and resets against every 31st of them and themselves; with unobservable transitions; two clocks x two clocks; "
                           "no clock x one clock both ways; 3 states x 2 states); every third choice of initial and accepting states of both factors, fresh product and re-selection; timed words of length <= 3 (letters x gaps 1..3)",
                  "thorough": "every 3rd to 7th right factor, every choice of initial and accepting states"}
PARSE_BOUNDS = {"quick": "all texts of length <= 7 over 8 operator tokens, <= 5 over 12 tokens, <= 6 over the interval tokens after 'a%', '(a%', <= 4 over 22 characters, <= 5 over interval characters; accepted ones again in three blank layouts and with a final newline; "
                         "every byte alone and in 4 contexts; 9 interval notations x 12 constants squared x parentheses x blanks; numbers that do not fit; depth up to 1000; every fully parenthesised tree with <= 3 operators",
                "thorough": "one token more in every alphabet"}
DOT_BOUNDS = {"quick": "every automaton with <= 2 states and <= 1 edge (a sample of those with 2) over 5 guards (up to 3 conjuncts, 3 clocks), 4 reset lists, all flags, in the renderings of a 1440-element style space (all for every 97th automaton); "
                       "every text of <= 5-6 characters as a guard, <= 4 as a reset list, <= 3 as a label or a flag; every truncation of two documents; documents that are not automata",
              "thorough": "texts one character longer, every 23rd automaton in all styles"}
OPT_BOUNDS = {"quick": "27000 invocations: 18 pattern sources x 11 log sources x 6 format options x 5 mode options x quiet x help/version (the latter with 2 log sources) x 3 orders of options; tre2ta: 9 pattern sources x 4 outputs x 6",
              "thorough": "the whole product"}
TRE2TA_BOUNDS = {"quick": "in process: every expression with <= 3 operators: printed DOT read back and its language compared on all timed words of length <= 3; programs: X$, (X$)%I, X($%I) for X with <= 1 operator (2 operators: X$), on 6 logs",
                 "thorough": "words of length 4, all 10 intervals"}
PRINT_BOUNDS = {"quick": "6 families of patterns; 8 combinations of time scale (1, 1/2, 1/4, 1/8, 1/16 units) and shift (0, 3, 1000, 1048576, 123456.5); logs of <= 3 events with 3 gaps, a sixth of them per pattern, rotated",
                "thorough": "all logs and scales for every pattern"}
READER_BOUNDS = {"quick": "logs of <= 3 records in 6 layouts and binary, odd bytes; cut at every byte: every sequence of 3 operations (fetch, [], at, setFront, size with every index up to length+2), 4 on whole logs; logs arriving line by line",
                 "thorough": "logs of <= 4 records, 4 and 5 operations; the same under AddressSanitizer and UBSan"}
ROBUST_BOUNDS = {"quick": "all expressions of <= 4 tokens (12 tokens) and 5 tokens (5 tokens), every byte in 5 contexts, operators nested 300 deep (construction only), in event mode and (with a, b) in signal mode; automata of 4 shapes with clocks 0, 1, 3, 200, 255 in guards and resets and constants 0, 1, 2147483647 (every fifth), "
                          "all documents of <= 4 DOT tokens, every byte as label, order, guard and reset list; logs: all strings of <= 3 bytes of 11 after 3 beginnings, all binary logs of <= 2 records over 10 numbers (NaN, infinities, extremes) x 5 letters, of 3 records over 10 numbers, truncations; every matcher",
                 "thorough": "5 tokens, all automata, 5 DOT tokens, 4 bytes"}
CHECKS = {
    "M01": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="match_event.cc", hang=60)], bounds=TA_BOUNDS, assumptions=[GRID]),
    "M02": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="match_event.cc", args=["signal"], hang=60)], bounds=TA_BOUNDS + "; additionally chains and (on logs of <= 4 events) cycles with unobservable transitions and open guards, on logs with every window of length 2 or 3", assumptions=[GRID]),
    "M03": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="match_event.cc", args=["notnec"], hang=60)], bounds=TA_BOUNDS, assumptions=[GRID]),
    "T01": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="tre_lang.cc", hang=60), dict(src="tre_lang.cc", args=["long"], hang=60)],
                bounds={"quick": "all TREs with <= 2 operators over {a,b} and 14 interval forms, 3 operators with 10 forms, 4 operators with 2 forms; all timed words of length <= 4 over 2 letters x 3 gaps; "
                                 "504 long expressions (up to 24 letters) on all words one edit away from those they spell",
                        "thorough": "4 operators with 5 interval forms, timed words of length <= 5"},
                assumptions=["timestamps and constants are integers; membership of a timed word only depends on sums of gaps"]),
    "T02": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="tre_match.cc", hang=60)],
                bounds={"quick": "all expressions over {a,b,$} with <= 2 operators and 10 interval forms, over {a,$} with 3 operators and 2 forms, and X$, (X$)%I, X($%I) for every X over {a,b} with "
                                 "<= 2 operators; every log of length <= 2 over 2 letters x 3 gaps, of length 3 over 2 x 2 (for every 9th expression), and a log with every window of length 2",
                        "thorough": "as quick with length 3 for all, 10 interval forms inside X, 4 forms around it, and X with 3 operators"},
                assumptions=[GRID]),
    "T04": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="sig_lang.cc", hang=60), dict(src="sig_lang.cc", hang=100, san=True, thorough_only=True)],
                bounds={"quick": "all expressions over {a,b} with <= 2 operators and 6 intervals and with 3 operators and 3 intervals; all signals of <= 3 segments over 2 letters with lengths 1/2 .. 5/2 (single segments up to 9/2); "
                                 "boundaries between segments of the same value on a grid of 1/12 of a unit",
                        "thorough": "3 operators with 4 intervals, 4 operators with 2; the same under AddressSanitizer and UBSan"},
                assumptions=["changes of the signal at multiples of half a unit; with at most four operators a boundary between equal segments never needs a finer grid than 1/12"]),
    "T05": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="sig_match.cc", hang=150)],
                bounds={"quick": "all expressions over {a,b} with <= 2 operators and 6 intervals and every fifth with 3 operators and 2 intervals; every log of <= 4 events over 2 letters, consecutive ones different, with gaps 1 to 3 "
                                 "(one event: up to 5) and total length <= 5 (for repetitions of unions with restrictions every twelfth of these); (t,t') on the quarter grid, boundaries inside a match on a grid of 1/24",
                        "thorough": "all with 3 operators and 3 intervals"},
                assumptions=["integer timestamps and constants"]),
    "S01": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="skip.cc", hang=60)],
                bounds="every pattern of the families (chains up to 3 events, two-clock chains, graphs up to 4 states, unions, parallel transitions; with '$', with early acceptance and in signal mode; with unobservable "
                       "transitions): shortest length and letters per position against the region graph; every shift against the matches the oracle finds on every log of length <= 4 (thorough 5) over 2 letters x 3 gaps",
                assumptions=["integer constants; a shift is unsound if the reference has a match with a beginning that is jumped over"]),
    "Z01": dict(level="model_checking", technique="explicit-state model checking: simultaneous subset construction of the implementation's zone automaton and the region graph", note=
                "Exhaustive for every automaton of the families and for untimed words of every length (the product of both deterministic subset automata is explored to a fixed point). Trusts the region semantics in src/regions.hh.",
                runs=[dict(src="za.cc", hang=60)],
                bounds="every automaton of the families (chains, graphs up to 3 states and 4 edges, two- and three-clock loops with shared resets, unobservable transitions, several initial and accepting states), constants <= 3; untimed words of every length; "
                       "also the automaton after removeDeadStates and the answer of empty()",
                assumptions=["delays are strictly positive, as in the library"]),
    "Z02": dict(level="model_checking", technique="explicit-state bounded model checking of operation sequences on the implementation against sets of valuations", note=
                "Every sequence of operations up to the depth (breadth first, equal implementation and model states merged). Trusts the pointwise semantics in src/zone_ops.cc.",
                runs=[dict(src="zone_ops.cc", hang=60), dict(src="zone_ops.cc", args=["3"], hang=60)],
                bounds={"quick": "operation sequences of length <= 5 over 2 clocks with constants <= 2 and <= 3 over 3 clocks with constant 1; valuations on the quarter grid",
                        "thorough": "length <= 6 over 2 clocks and <= 4 over 3 clocks"},
                assumptions=["resets and elapses are applied to canonical zones, as the library does"]),
    "Z03": dict(level="model_checking", technique="explicit-state bounded model checking of operation sequences on the implementation against difference-bound matrices over all variables", note=
                "Every sequence of steps up to the depth (breadth first, equal states merged), the real zone compared with the projection of a plain difference-bound matrix. Trusts that matrix.",
                runs=[dict(src="zone_inter.cc", args=["1"], hang=60), dict(src="zone_inter.cc", args=["2"], hang=60)],
                bounds={"quick": "3 logs; every choice of the event before which t lies; steps with all guards (single and pairs) with constants <= 2 and all resets: sequences of length <= 4 with one clock and <= 3 with two",
                        "thorough": "length <= 5 with one clock, <= 4 with two"},
                assumptions=["variables are introduced in the order of time, as the matchers do"]),
    "I01": dict(level="model_checking", technique="explicit-state bounded model checking of operation sequences on the implementation against sets of numbers", note=
                "Every interval, pair of intervals and sequence of operations within the bounds. The reference represents a set by the integers and unit gaps it contains, which is exact for integer bounds. Trusts that representation. "
                "Kleene plus of point intervals and of some open intervals is a known finding.",
                runs=[dict(src="interval.cc", hang=60)],
                bounds={"quick": "all 78 non-empty intervals with bounds <= 5 or infinite, all pairs; sequences of 2 operations (land with an interval or a union, sum, plus) on every union of <= 2 intervals with bounds <= 3; membership up to 40; the second operation takes every third operand",
                        "thorough": "sequences of 3 operations on every union of <= 2 intervals with bounds <= 4, later operations taking every seventh operand"},
                assumptions=["integer bounds, non-negative numbers; operands of + and plus are non-empty intervals or come from earlier operations"]),
    "T03": dict(level="model_checking", technique=EXPL, note=NOTE, runs=[dict(src="product.cc", hang=60)], bounds=PRODUCT_BOUNDS, assumptions=["integer timestamps and constants"]),
    "P01": dict(level="model_checking", technique="bounded exhaustive enumeration of texts over the token alphabet, run through the implementation and compared with a reference recogniser and with the trees spelt", note=
                "Every text of the bounded length over the token alphabet, in every blank layout of a list; every fully parenthesised tree in the bounds. Trusts the reference grammar in src/parse.cc, written from the documentation.",
                runs=[dict(src="parse.cc", hang=60), dict(src="tre_lang.cc", args=["trees"], hang=60)], bounds=PARSE_BOUNDS, assumptions=["the grammar of the manual; bounds of intervals up to 2147483647"]),
    "D01": dict(level="model_checking", technique="bounded exhaustive enumeration of automata, renderings and edited texts, run through the implementation and compared with a reference reader", note=
                "Trusts the reference reader in src/dot.cc. Texts on which the manual and examples are silent (see the assumptions) are not judged.",
                runs=[dict(src="dot.cc", hang=60)], bounds=DOT_BOUNDS, assumptions=["the dialect of the manual and the shipped examples"]),
    "C01": dict(level="model_checking", technique="exhaustive enumeration of the configuration space (options x pattern sources x log sources x contents) on the built programs against the manual", note=
                "Every combination in the stated lists is run once on the real executables; the answer expected is that of the plain invocation or the exit status of the manual.",
                cli=True, runs=[dict(src="options.cc", hang=60)], bounds=OPT_BOUNDS, assumptions=["files that are directories or unreadable are not tried", "exit status 10 for patterns with an empty language is not judged"]),
    "C02": dict(level="model_checking", technique=EXPL, note=NOTE, cli=True, runs=[dict(src="tre_lang.cc", args=["print"], hang=60), dict(src="tre_lang.cc", args=["print", "long"], hang=60), dict(src="tre2ta_cli.cc", hang=60)], bounds=TRE2TA_BOUNDS, assumptions=[GRID]),
    "C03": dict(level="model_checking", technique=EXPL, note=NOTE, cli=True, runs=[dict(src="printed.cc", hang=60)], bounds=PRINT_BOUNDS, assumptions=["times up to the printed precision (%.6f)"]),
    "L01": dict(level="model_checking", technique="explicit-state bounded model checking of operation sequences on the implementation, with the log cut at every byte, against a reference reader", note=
                "Every sequence of operations up to the depth on every log. Trusts the reference reader in src/reader.cc.",
                runs=[dict(src="reader.cc", hang=60), dict(src="reader.cc", hang=120, san=True, thorough_only=True)], bounds=READER_BOUNDS, assumptions=["letters are printable non-blank characters; a number is one that scanf reads"]),
    "M04": dict(level="model_checking", technique="explicit-state exploration of all logs by forking: the next event (or the end of the log) is chosen when the implementation asks for it", note=
                "For every pattern, every log up to the depth is explored as a tree of processes, one choice at a time, on a container that watches every access of the real matchers. Trusts the notion of a run being alive in src/online.cc.",
                runs=[dict(src="online.cc", hang=100), dict(src="online.cc", args=["signal"], hang=100), dict(src="online.cc", args=["notnec"], hang=100)],
                bounds={"quick": "per mode about 2000 patterns of 13 families (every member of the small ones, equally spaced ones of the others); every log of length <= 3 over 2 letters x 2 gaps, <= 4 for every 8th and <= 5 for every 64th pattern; one leaf in 509 again through the real reader, ASCII and binary",
                        "thorough": "ten times as many patterns, logs one event longer"},
                assumptions=[GRID]),
    "M05": dict(level="model_checking", technique="bounded exhaustive exploration of representations: every variant in a list of every pattern, run through the implementation and compared with the pattern as given", note=
                "Metamorphic: the implementation is compared with itself on another representation (M01..M03 compare it with a reference).",
                runs=[dict(src="represent.cc", hang=100), dict(src="represent.cc", args=["signal"], hang=100), dict(src="represent.cc", args=["notnec"], hang=100)],
                bounds={"quick": "per mode about 1200 patterns (13 families, equally spaced members of the larger ones; signal mode also with unobservable transitions), each in about 30 variants: every order of <= 3 states and of their addresses (rotations and reversal above), "
                                 "initial states and transitions reordered, clocks exchanged, unused, redundant and always-true clocks, repeated guards, unreachable, dead and never-enabled states and transitions, states, transitions and the whole pattern duplicated, "
                                 "times scaled by 2 and 3 and shifted by 1, 7 and 2^20; on a log with every window of length 2 or 3 over 2 letters x 2 gaps and one short log",
                        "thorough": "15 times as many patterns"},
                assumptions=[GRID]),
    "R01": dict(level="model_checking", technique="bounded exhaustive enumeration of input bytes, run through the implementation under AddressSanitizer and UndefinedBehaviorSanitizer as monitors", note=
                "Every input of the bounded size is run once through parsing, construction, all three matchers and printing; a sanitizer report, an uncaught exception, a foreign exit status or a run without end is a violation. Trusts the sanitizers; uninitialised reads are not monitored.",
                runs=[dict(src="robust.cc", args=[m], san=True, flags=["-O2"], hang=200) for m in ("expr", "signal", "dot", "log")], bounds=ROBUST_BOUNDS,
                assumptions=["run time that grows with the constants of a looping pattern or with the cube of the number of clocks is not judged", "memory is not exhausted"]),
}
NOT_APPLICABLE = {}
