"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}}
    if state:
        d["anchors"]["state"] = [{"name": x, "where": files[0]} for x in state]
    assert len(title) <= 80, title
    P.append(d)

p("M01", "Event-mode matching reports exactly the matching pairs (t,t')",
  "For every timed-automaton pattern whose accepting transitions are labelled '$' and every log with strictly increasing timestamps, the union of the "
  "zones reported in event mode is exactly the set of (t,t') with t < t' such that the events in (t,t'), shifted to start at t and followed by '$' at t', "
  "are accepted. Nothing is missed because of skipping, the order of states or the end of the log (after the last event t' is unbounded), nothing extra is "
  "reported, and matches containing no event are included.",
  ["programs", "inputs"], "every pattern automaton (any shape, number of initial states, guards, resets, cycles) and every timed log",
  "The unit tests run a handful of patterns on one log each and mostly count zones; a skip that is too long or a bound that is off shows only on "
  "particular pattern/log alignments.",
  ["libmonaa/monaa.hh", "libmonaa/intermediate_zone.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"],
  "monaaDollar: Sunday-type and KMP-type skipping around a forward exploration of configurations (state, reset times, zone of t) with '$' edges emitting a zone",
  ["CStates configurations", "AnsContainer"])

p("M02", "Signal-mode matching reports exactly the matching pairs (t,t')",
  "For every timed-automaton pattern (unobservable transitions included, which may be taken at any time between events) and every log, the union of the zones reported by the signal-mode matcher is exactly the set of (t,t') with t < t' such that "
  "the log restricted to (t,t') is accepted when the last (possibly cut) segment carries the letter of the event at or after t'. "
  "No match is missed because of skipping and none is reported that is not a match.",
  ["programs", "inputs"], "every pattern automaton and every timed log",
  "The existing signal-mode tests use two automata; the case split over how many events a match spans and over skips is not sampled.",
  ["libmonaa/monaa.hh", "libmonaa/intermediate_zone.hh"], "monaa(): the same skipping, with accepting transitions taken at some t' in (previous event, next event]",
  ["CStates configurations"])

p("M03", "Matching without a compulsory '$' reports exactly the matching pairs",
  "For the matcher that does not require '$', and every pattern and log, the reported zones are exactly the pairs (t,t') where either an accepting state is entered by "
  "the event at t' itself, or a '$' transition to an accepting state is enabled at t' after the events in (t,t'). "
  "Every intermediate accepting visit is reported, including those from which the pattern continues.",
  ["programs", "inputs"], "every pattern automaton, with every choice of accepting states and of '$' transitions, and every log",
  "Only one or two patterns are tested; combinations of early acceptance with '$' and with continuing runs are not.",
  ["libmonaa/monaa.hh"], "monaaNotNecessaryDollar", ["CStates configurations"])

p("M04", "Matching is online: results do not depend on the future of the log",
  "A match (t,t') whose end t' is at or before the i-th event is reported, or not, independently of the events after the i-th one. It is reported before the log is read further than its end, than a shortest match beginning "
  "at the same place, or than one event past those that runs with earlier beginnings needed. Events are released as the search goes on: the matcher never asks for an event before the last position it "
  "released nor uses one it did not fetch, has released everything before the event preceding the beginning of the match it reports, and running it on the whole log equals running it while the log is being streamed.",
  ["inputs", "histories"], "every pattern, every log and every prefix of that log",
  "Tests always give the complete log; nothing compares a log with its prefixes or watches which positions are read.",
  ["libmonaa/monaa.hh", "libmonaa/lazy_deque.hh", "libmonaa/word_container.hh"], "fetch/setFront protocol between the matcher and the word container", ["front of the word container"])

p("M05", "The representation of a pattern does not change its matches",
  "Permuting the states, the initial states or the transitions of a pattern, renaming its clocks or states, adding states that are unreachable or dead, merging or "
  "duplicating equivalent branches, and allocating its states at other addresses leave the reported set of (t,t') unchanged. "
  "Scaling or shifting all times of log and pattern maps the matches accordingly.",
  ["programs", "inputs", "configurations"], "every pattern, every permutation/renaming of it, every log",
  "Containers keyed or sorted by pointer make the outcome depend on the representation; the tests use one representation of each pattern.",
  ["libmonaa/monaa.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/zone_automaton.hh", "libmonaa/ta2za.cc"], "look-ups of states by pointer in initialStates, toIState and beta")

p("S01", "Skip values are sound and the shortest-match length is exact",
  "For every pattern, the number of events of a shortest match computed for skipping is the minimum over all accepted timed words, so no log is too short to be searched "
  "and a non-empty pattern is never called empty. The shift computed for a character never exceeds the distance after which a match could begin, and the shift computed for a set of "
  "reached states never jumps over a beginning at which a match exists.",
  ["programs", "inputs"], "every pattern and, for each, every window of events and every set of states reached by reading a segment",
  "The unit tests check the tables of three fixed patterns; soundness quantifies over every continuation of every window.",
  ["libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"], "SundaySkipValue and KMPSkipValue computed from zone automata", ["delta", "beta", "m"])

p("Z01", "Zone construction of a timed automaton terminates and is exact",
  "For every timed automaton the construction of its zone automaton terminates, and the sequences of letters leading to each automaton state are exactly those of the timed runs with "
  "strictly positive delays. Pruning removes exactly the states that lie on no accepting run, and the emptiness answer is exact.",
  ["programs"], "every timed automaton with integer constants: any guards, resets, cycles and number of clocks",
  "Three fixed automata are tested; non-termination and wrong abstraction need cycles with particular resets.",
  ["libmonaa/ta2za.cc", "libmonaa/zone.hh", "libmonaa/zone_automaton.hh"], "ta2za with abstraction by the maximal constant, ZoneAutomaton::removeDeadStates / empty", ["ZA.states"])

p("Z02", "Zone operations compute the set operations they stand for",
  "After any sequence of tightening, resetting, elapsing, canonising, intersecting, projecting and testing (of a non-empty canonical zone, without canonising in between), a zone over clocks denotes exactly the "
  "set of valuations obtained by applying the same operations pointwise, satisfiability is reported iff that set is non-empty, and the guard made from a zone denotes the zone. Abstraction only adds valuations, and never changes the truth of any comparison with a constant below the bound.",
  ["histories"], "every sequence of zone operations over up to three clocks",
  "Tests perform single operations on single zones; missed re-canonisation needs sequences.",
  ["libmonaa/zone.hh"], "DBM with (value, non-strict) entries: tighten/close1/reset/elapse/canonize/isSatisfiable/abstractize", ["Zone::value", "Zone::M"])

p("Z03", "Zones under construction during matching denote exactly their constraints",
  "After any sequence of allocating a time variable (in the order of time), constraining it by guards against earlier times, forgetting variables that are no longer used and testing satisfiability, the zone "
  "kept by the matcher denotes exactly the projection of the conjunction of all constraints, satisfiability is exact, and the answer (t, t', t'-t) extracted from it is that projection. "
  "The compact representation used for the first two variables agrees with the general one.",
  ["histories"], "every sequence of allocations, tightenings and deallocations up to a depth",
  "Tests build one or two such zones; the switch from the compact to the general representation and re-use of freed variables need sequences.",
  ["libmonaa/intermediate_zone.hh"], "IntermediateZone::alloc/tighten/update/toAns with an interval representation for up to two variables", ["IntermediateZone::intervals", "isAllocated", "newestClock"])

p("I01", "Interval arithmetic is exact",
  "Intersection and sum of intervals, and of finite unions of intervals, contain a number iff the set-theoretic intersection and sum do, including at end points of open and closed "
  "bounds; membership agrees with the bounds. The Kleene-plus closure of an interval is the union of its n-fold sums.",
  ["inputs"], "every pair of intervals and unions of intervals with any combination of open, closed and unbounded ends",
  "Tests use open intervals only, on a few pairs.",
  ["libmonaa/interval.hh"], "operator&&, operator+, land, plus, contain on Interval", None)

p("T01", "The automaton of an expression accepts exactly the expression's language",
  "For every timed regular expression, the event automaton built from it accepts exactly the finite timed words in the expression's semantics: concatenation, union, intersection, "
  "Kleene plus and star, and duration restriction by open, closed, point and unbounded intervals, in any nesting and including the empty word. "
  "The automaton is well formed: every transition leads to one of its states and every clock used is declared with its maximal constant.",
  ["programs", "inputs"], "every expression and every timed word",
  "The tests compile fewer than twenty expressions and check a few words; operators interact (loops with resets, accepting initial states, shared clocks).",
  ["monaa/tre.cc", "monaa/tre_parser.yy", "libmonaa/intersection.cc"], "TRE::toEventTA by structural recursion", ["TimedAutomaton::maxConstraints"])

p("T02", "Matching an expression reports exactly the segments in its language",
  "For every timed regular expression over events and '$' and every log, parsing, compiling and matching together report exactly the (t,t') such that the events in (t,t') followed by '$' at t' form "
  "a timed word of the expression's semantics, whatever the position and duration restrictions of '$'.",
  ["programs", "inputs"], "every expression and every log",
  "Seven expressions are run end to end on four logs by the integration test.",
  ["monaa/tre.cc", "monaa/tre_parser.yy", "libmonaa/monaa.hh"], "TREDriver -> TRE::toEventTA -> monaaDollar")

p("T03", "The product of two automata accepts exactly the intersection",
  "For every two timed automata, their product accepts a timed word iff both do, its clocks are those of both without interference, and re-selecting initial and accepting states of the "
  "factors updates the product's accordingly, also in the presence of unobservable transitions.",
  ["programs", "inputs"], "every pair of automata and every timed word", "Tests intersect two fixed pairs.",
  ["libmonaa/intersection.cc"], "intersectionTA / updateInitAccepting", ["toIState"])

p("T04", "Signal-mode expressions compile to automata of the same language",
  "For every expression of signals built from letters by concatenation, union, conjunction, Kleene plus and star, and duration restriction, the signal automaton built from the "
  "expression accepts exactly the non-empty signals in its semantics, a letter standing for a segment of that value of any positive length and adjacent segments of the same value being merged into one.",
  ["programs", "inputs"], "every such expression and every signal", "A few normal forms are tested, no language is compared.",
  ["monaa/intermediate_tre.cc", "monaa/tre.cc", "libmonaa/interval.hh", "libmonaa/intersection.cc"], "DNFTRE::toNormalForm / makeSNF / toSignalTA, intersectionSignalTA, renameToEpsilonTransitions")

p("T05", "Matching a signal expression reports exactly the segments in its language",
  "For every expression of signals and every log whose consecutive events have different letters, parsing, compiling and matching in signal mode together report exactly the (t,t') with t < t' "
  "such that the part of the signal between t and t' is in the expression's semantics, the letter of an event being the value of the signal since the event before it.",
  ["programs", "inputs"], "every such expression, every such log and every (t,t')", "The signal mode is tested on automata only; no expression is matched in signal mode.",
  ["monaa/intermediate_tre.cc", "libmonaa/monaa.hh", "monaa/main.cc", "libmonaa/kmp_skip_value.hh"], "toSignalTA followed by monaa() with its skip values, for patterns with unobservable transitions")

p("P01", "The expression parser accepts exactly the documented syntax",
  "A text is accepted as an expression iff it is derivable in the documented grammar, blanks being ignored, and otherwise a parse error (exit status 2) is reported without crashing or hanging. "
  "A fully parenthesised expression is parsed into exactly the tree it spells, each of the ten interval notations denoting the interval it shows.",
  ["inputs"], "every text over the token alphabet", "Ten well-formed expressions are tested and no malformed one.",
  ["monaa/tre_parser.yy", "monaa/tre_lexer.l", "monaa/tre_driver.hh"], "flex/bison grammar")

p("D01", "Reading a DOT automaton yields exactly the automaton that is written",
  "For every automaton written in the documented DOT dialect, reading it yields the same states, initial and accepting sets, transitions, guards, resets, number of clocks and maximal constants, "
  "independently of the order of statements and attributes, optional attributes, quoting and node names. Text that is not in the dialect is rejected with exit status 2 instead of being misread.",
  ["inputs", "programs"], "every automaton in the dialect and every rendering of it; every malformed guard, reset or attribute",
  "Two files are parsed by the tests.", ["monaa/timed_automaton_parser.hh"], "boost::read_graphviz with custom property readers, convBoostTA", ["TimedAutomaton::maxConstraints"])

p("C01", "Exit status, streams and options follow the manual",
  "For every combination of options, the program exits with 0 when nothing is wrong, 1 for wrong options or unreadable files and 2 for unparsable patterns, never by a crash. Quiet mode prints no result; "
  "the log given by option, as a positional argument, on standard input, in ASCII or in binary form yields the same output; help and version win over everything else.",
  ["configurations", "inputs"], "every combination of options, sources of pattern and log, and well- or ill-formed contents", "No test runs the program with wrong options, and binary input is never run.",
  ["monaa/main.cc", "monaa/tre2ta.cc", "libmonaa/lazy_deque.hh"], "option parsing in main()")

p("C02", "tre2ta prints an automaton equivalent to the expression",
  "For every expression, the DOT text printed by tre2ta is accepted as a pattern, has exactly the language of the expression, and matching it yields the same set of (t,t') as matching the expression directly.",
  ["programs", "inputs"], "every expression and every log", "tre2ta is not run by any test.",
  ["monaa/tre2ta.cc", "libmonaa/timed_automaton.hh", "libmonaa/constraint.hh", "monaa/timed_automaton_parser.hh"], "operator<< of TimedAutomaton and of Constraint, and the DOT reader")

p("C03", "The printed result denotes the matches",
  "For every pattern file or expression and every log file, the text printed by the program, read as a union of sets {l <= t < u, l' < t' <= u', d < t'-t <= e} with the printed strictness, is exactly the set of "
  "matches, for fractional, large and tiny timestamps up to the printed precision, with one block per reported zone.",
  ["inputs", "programs"], "every pattern and log, including non-integral and large timestamps", "Only a count of output lines is checked by the integration test.",
  ["libmonaa/ans_vec.hh", "monaa/main.cc", "libmonaa/lazy_deque.hh"], "PrintContainer::push_back")

p("L01", "The log reader delivers the records of the log, in order, in any access order",
  "For every log and every sequence of fetching, indexing and discarding, the n-th record is delivered iff the log has more than n complete records and n was not discarded, always with its letter and timestamp and without waiting for input that comes after it; the "
  "length is reported once the end was met; access elsewhere is refused. ASCII and binary encodings of a log, however blanks and lines are laid out, deliver the same records; an incomplete last record is ignored.",
  ["histories", "inputs", "fault_sequences"], "every sequence of reader operations on every log, with the log cut at every byte",
  "One sixteen-record file per format is read with two access sequences.", ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh"], "LazyDeque::fetch / setFront / operator[] over fscanf/fread", ["front", "N", "deque"])

p("R01", "No input can corrupt memory or end the program other than by its exit status",
  "For every expression text, DOT text and log bytes - including bytes that are not letters, many clocks, unused clocks, duplicate or missing attributes, empty files and truncated records - the program performs "
  "no out-of-bounds access, use after free, undefined arithmetic or uncaught exception, and terminates.",
  ["inputs"], "every input text", "Tests only use well-formed inputs and run without sanitizers.",
  ["monaa/main.cc", "monaa/timed_automaton_parser.hh", "libmonaa/monaa.hh", "libmonaa/lazy_deque.hh"], "all parsing and matching code")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
