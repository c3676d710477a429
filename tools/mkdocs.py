#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that the two stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["results and errors of AddPattern and MatchesForEvent"]
    d["anchors"]["hook_needed"] = hook
    P.append((d, technique, note))

MODEL = "trusts the reference model in harness/ (an independent, direct evaluation of the pattern on the parsed event)"

prop("C01", "An event is reported for exactly the patterns that match it",
 "For every set of patterns added to an instance and every valid JSON event, the identifiers reported are exactly those of which some added pattern matches: every field the pattern names has, at its path through nested objects, a value in the event that one of the values listed for it matches. "
 "This holds for any number and mixture of exact, prefix, wildcard, shellstyle, regexp, equals-ignore-case, anything-but, exists and numeric values on the same and on different fields, for any number of fields in a pattern and of values listed for each, and for events of any size and depth (up to 10,000 nested arrays). "
 "Each identifier is reported at most once, however many of its patterns match and in however many ways.",
 ["inputs", "configurations"], "all pattern sets x all valid events (field names without line feeds; no member name twice in an object; numbers within the range of float64)",
 "The tests try a few hundred hand-written pattern/event pairs, mostly one kind of pattern at a time; the automata of different kinds are merged, and what goes wrong depends on the combination.",
 ["core_matcher.go", "field_matcher.go", "value_matcher.go", "nfa.go", "epsi_closure.go", "small_table.go", "flatten_json.go", "segments_tree.go", "pattern.go", "match_set.go"],
 [("matching fields against field matchers, recursively", "core_matcher.go matchesForFields, tryToMatch"), ("merging of automata", "nfa.go mergeFAs"), ("flattening the fields that patterns use", "flatten_json.go"), ("set of matches", "match_set.go")],
 "online reference-model monitor over generated pattern sets and events", MODEL)

prop("C02", "Patterns don't interfere with each other",
 "Whether an identifier is reported for an event depends only on the patterns added under that identifier, not on which other patterns were added to the instance, before or afterward, in which order, or how often. "
 "Nor does it depend on how a pattern is spelled: the order of its members and of the values listed for a field, white space, and escapes in its strings.",
 ["inputs", "histories"], "all pattern sets, permutations and partitions of them, x all valid events",
 "Each test has one order of adding; merging is order-dependent code (automata are merged pairwise, into deterministic or nondeterministic ones), and the tests don't compare orders.",
 ["nfa.go", "value_matcher.go", "field_matcher.go", "core_matcher.go", "state_lists.go", "epsi_closure.go"],
 [("merging the automaton of a new value with the existing one", "value_matcher.go addTransition, nfa.go mergeFAs"), ("copy-on-write of field and value matchers", "field_matcher.go update, value_matcher.go update"), ("recomputation of epsilon closures", "epsi_closure.go")],
 "metamorphic monitor: results of instances related by permutation, subset, duplication, respelling", "compares executions of the real code with each other; needs no model of matching")

prop("C03", "exists:true and exists:false test for the presence of a leaf",
 "A field with exists:true is satisfied exactly if the event has at least one leaf value (string, number, true, false or null, also inside of arrays) at that path, and one with exists:false exactly if it has none, so that an empty array or an object there counts as absence. "
 "This holds whatever else the pattern demands of other fields, before or after it in the order of names, for patterns consisting of nothing else, and whatever other patterns use the field.",
 ["inputs"], "all patterns with exists x all valid events",
 "The tests have some dozen combinations; absence depends on every field of the event, on the fields' order, and on early termination of the reading.",
 ["core_matcher.go", "field_matcher.go", "flatten_json.go", "pattern.go", "segments_tree.go"],
 [("exists transitions", "core_matcher.go checkExistsFalse, field_matcher.go"), ("stopping to read the event when all fields were seen", "flatten_json.go")],
 "online reference-model monitor", MODEL)

prop("C04", "Arrays: any element may match, but related fields come from one element",
 "A field whose value in the event is an array, of any depth, is matched if any element matches. "
 "A pattern on several fields below arrays of objects matches only if there are values for all of them that belong together, i.e. wherever two of these values are inside the same array of the event they are inside the same element of it.",
 ["inputs"], "all patterns x all events with arrays, nested to any depth",
 "The number of combinations of positions in nested arrays is unbounded; the tests use a handful of events.",
 ["core_matcher.go", "flatten_json.go"],
 [("array trails are compared", "core_matcher.go noArrayTrailConflict"), ("array trails are recorded", "flatten_json.go")],
 "online reference-model monitor", MODEL)

prop("C05", "wildcard and shellstyle values match exactly the strings they describe",
 "A string value in an event is matched by a wildcard or shellstyle value exactly if it equals the pattern's text with every * replaced by some string, possibly empty, and, in a wildcard, with \\* and \\\\ standing for a literal asterisk and backslash. "
 "This holds for any number and position of asterisks, any characters, in either build mode, and any set of such values on the same field, along with values of other kinds.",
 ["inputs", "configurations"], "all sets of wildcards/shellstyles x all strings, both build modes",
 "Unbounded strings; the tests use fixed lists of words. Merged nondeterministic automata make the result depend on the other patterns.",
 ["wildcard.go", "shell_style.go", "nfa.go", "epsi_closure.go", "value_matcher.go"],
 [("construction of spinner states", "wildcard.go, shell_style.go"), ("traversal", "nfa.go traverseNFA"), ("conversion to a DFA", "nfa.go nfa2Dfa")],
 "online reference-model monitor (dynamic-programming glob matcher)", MODEL)

prop("C06", "regexp values match exactly the strings the documented dialect defines",
 "A regexp matches a string value exactly if the whole of it is in the language that the expression denotes in the documented dialect: literal characters, ~ escapes, dot, character classes with ranges and negation, ~p{..} and ~P{..} categories, alternation with possibly empty branches, groups, and the quantifiers ?, *, +, {n}, {n,} and {n,m} with counts from 1 to 99. "
 "This holds for all Unicode scalar values, any nesting of groups and quantifiers, in either build mode, and with any set of regexps and other values on the same field.",
 ["inputs", "configurations"], "all regexps of the dialect x all strings, both build modes",
 "The tests have a sample file of regexps with a few strings each; nested quantifiers, classes at the edges of UTF-8 encodings and combinations of regexps are unbounded.",
 ["regexp_parse.go", "regexp_reader.go", "regexp_nfa.go", "quantified_atom.go", "rune_range.go", "character_properties.go", "nfa.go"],
 [("parsing", "regexp_reader.go, regexp_parse.go"), ("construction of the NFA", "regexp_nfa.go"), ("automata for ranges of runes", "rune_range.go")],
 "online reference-model monitor (set-of-positions regexp evaluator); exhaustive over scalar values for single classes", MODEL + "; Unicode tables of Go")

prop("C07", "AddPattern accepts what is valid and refuses the rest without a trace",
 "Every pattern that the documentation allows is accepted, and every one it excludes (text that isn't a JSON object, invalid UTF-8, a field whose value isn't an array or object, an object or array among the listed values that isn't one of the documented kinds, several or wrongly typed members in one, misplaced or adjacent asterisks and bad escapes, malformed regexps, exists or anything-but together with other values) is refused with an error; no text whatsoever makes the call panic or hang. "
 "After a refused call, on whatever part of the pattern it was, all results and statistics are what they would be had the call not been made, and a later valid pattern is handled as usual.",
 ["inputs", "histories"], "all texts (but regexps whose nested counts multiply to millions), interleaved with valid patterns",
 "The tests list some invalid patterns but not what follows in a larger pattern, and never look at the instance afterward.",
 ["pattern.go", "anything_but.go", "value_matcher.go", "monocase.go", "wildcard.go", "shell_style.go", "regexp_reader.go", "core_matcher.go"],
 [("parsing", "pattern.go patternFromJSON and the functions it calls"), ("the pattern is parsed completely before anything is changed", "core_matcher.go addPattern")],
 "online monitor with generated valid/invalid patterns whose status is known by construction, and state comparison around refused calls", "trusts the generator's classification of texts")

prop("C08", "equals-ignore-case matches exactly the case variants",
 "An equals-ignore-case value matches a string exactly if the two have the same number of characters and each pair of them is equal or related by Unicode simple case folding (as upper-, lower- or titlecase variants). "
 "This holds for all characters, including those whose variants differ in the length of their UTF-8 encoding or that have more than two variants, and along with other values on the same field.",
 ["inputs"], "all strings x all strings; all scalar values",
 "The tests use a few words and a few pairs of characters.",
 ["monocase.go", "case_folding.go"], [("alternative transitions for case variants", "monocase.go"), ("table", "case_folding.go")],
 "online reference-model monitor; exhaustive over scalar values in the thorough tier", MODEL + "; Go's unicode.SimpleFold")

prop("C09", "prefix and anything-but match exactly the strings they should",
 "A prefix value matches exactly the string values that begin with it, and an anything-but value exactly those string values that are equal to none of its listed strings, including strings that are prefixes or extensions of these. "
 "This holds for all characters (quotation marks and backslashes too), the empty string, any number of such values on a field, in the same or several patterns, and along with other kinds of values.",
 ["inputs"], "all lists of strings x all strings",
 "Unbounded strings; errors are at shared prefixes and at the end of values, and in the merging with other automata.",
 ["anything_but.go", "value_matcher.go", "nfa.go"],
 [("automaton with an exit at each point of departure", "anything_but.go"), ("prefix automaton", "value_matcher.go")],
 "online reference-model monitor", MODEL)

prop("C10", "Numbers match by value, strings and numbers don't mix",
 "A number in a pattern matches a number in an event exactly if the two denote the same value as 64-bit floating-point numbers, however either is spelled (sign of zero, leading digits, fraction, exponent). "
 "A number never matches a string with the same characters nor the other way round, true, false and null match only themselves, and all of this holds for any set of numbers, strings and literals on the same field.",
 ["inputs"], "all pairs of spellings of numbers within the range of float64, all sets of numbers on a field",
 "The tests use a few numbers and spellings; the representation of numbers has a variable length, and one can be a prefix of another.",
 ["numbers.go", "numbits.go", "value_matcher.go", "pattern.go"],
 [("canonical bytes for a number", "numbits.go, numbers.go"), ("choosing among the text and the number", "value_matcher.go transitionOn")],
 "online reference-model monitor", MODEL + "; strconv.ParseFloat")

prop("C11", "How an event is written doesn't matter",
 "Texts that denote the same JSON value give the same result: white space between tokens, the order of the members of objects, escapes instead of characters in names and strings (including surrogate pairs), and the spelling of numbers are irrelevant. "
 "Nor do members that no pattern mentions matter, whatever they contain and wherever in the event they are.",
 ["inputs"], "all events x all their spellings",
 "The tests contain hardly any event in more than one spelling; the reader skips and stops early depending on the patterns.",
 ["flatten_json.go", "segments_tree.go", "core_matcher.go"],
 [("hand-written JSON reader", "flatten_json.go"), ("sorting of fields", "core_matcher.go"), ("skipping of members that aren't needed", "flatten_json.go, segments_tree.go")],
 "metamorphic monitor: results for generated spellings of one event compared", "trusts the generator of spellings")

prop("C12", "Malformed events give an error, never a panic or a lasting effect",
 "No sequence of bytes makes matching panic, hang, or return identifiers together with an error. "
 "Events that are cut off, empty, not an object, followed by something else, or that have unbalanced brackets, misplaced or missing tokens, bad literals, malformed escapes, control characters or the bytes F5 to FF in a string are refused with an error if that place has to be read in order to find the fields the patterns use. "
 "After such events the instance judges valid events as before.",
 ["inputs", "histories"], "all byte sequences; all truncations and corruptions of valid events",
 "The tests have a list of malformed events; an error can be at any place of any event, and its handling depends on which members are being skipped.",
 ["flatten_json.go", "quamina.go"],
 [("hand-written JSON reader with error returns", "flatten_json.go"), ("reset of the reader's state", "flatten_json.go Flatten")],
 "online monitor: generated corruptions classified by an independent recogniser, interleaved with valid events", "trusts the recogniser, which doesn't judge malformed numbers, trailing commas and what needn't be read")

prop("C13", "Results don't depend on the build mode",
 "Instances built for comfort and built for speed, and ones where the mode is changed between calls, report the same identifiers for every event when given the same patterns in the same order.",
 ["inputs", "configurations"], "all pattern sets (small enough for the documented exponential growth not to matter) x all events x all sequences of modes",
 "The tests compare the modes for a few patterns; the conversion to deterministic automata is different code with its own merging.",
 ["nfa.go", "value_matcher.go", "quamina.go", "state_lists.go"],
 [("conversion of an NFA to a DFA", "nfa.go nfa2Dfa"), ("choice between the modes", "value_matcher.go")],
 "metamorphic monitor comparing instances in different modes, and with the reference model", "compares executions of the real code with each other")

prop("C14", "Matching is correct while patterns are being added by other goroutines",
 "While one goroutine adds patterns through an instance, matches on copies of it by other goroutines report every pattern whose addition returned before the match began and none whose addition hadn't begun when the match returned or that doesn't match, whatever the interleaving; in particular, patterns added earlier never disappear for a moment. "
 "There are no data races between AddPattern, MatchesForEvent, GetMatcherStats and Copy on copies, and a match never waits for an addition.",
 ["schedules", "histories", "inputs"], "all interleavings of one adding goroutine with any number of matching ones, all patterns and events",
 "The existing concurrency tests use one set of string patterns and look at few interleavings, without the race detector unless asked to.",
 ["core_matcher.go", "field_matcher.go", "value_matcher.go", "nfa.go", "epsi_closure.go", "quamina.go", "memory_cost.go"],
 [("copy-on-write with atomic publication", "field_matcher.go update, value_matcher.go update, core_matcher.go addPattern")],
 "Go race detector; offline checker of recorded histories; deterministic interleaving at hook points", "schedules: those of the stress runs, with injected delays, plus all calls at every hook point", 
 observe=["histories of AddPattern and MatchesForEvent on copies", "race detector reports"], hook="points between the steps of AddPattern and of a match",
 state=[("published state", "what readers see", "atomic pointers in coreMatcher, fieldMatcher, valueMatcher")])

prop("C15", "No pattern is lost when several goroutines add patterns at once",
 "When several goroutines call AddPattern on copies of an instance at once, each call takes effect completely: when all have returned, every instance reports for each event exactly what one does to which the same patterns were added one after the other, and refused calls have no effect. "
 "The same holds with pattern deletion enabled.",
 ["schedules", "inputs"], "all interleavings of AddPattern calls by any number of goroutines, all patterns",
 "One existing test adds patterns concurrently; it doesn't check every pattern afterward against a sequential instance.",
 ["core_matcher.go", "pruner.go", "live_pattern_state.go", "rune_range.go"],
 [("mutex", "core_matcher.go addPattern, pruner.go")],
 "Go race detector; final-state checker against sequential instances", "schedules: those of the stress runs, with injected delays", 
 observe=["results after concurrent AddPattern calls", "race detector reports"], hook="delays at points inside AddPattern")

prop("C16", "Deleted patterns are gone, all others stay, through rebuilds",
 "With deletion enabled, after DeletePatterns(X) has returned no match on the instance or any copy reports X until a pattern is added for X again, and then only for what was added since; all other identifiers are reported as if nothing had been deleted, each at most once. "
 "This holds for any history of additions (several per identifier too), deletions (of unknown identifiers too), refused additions, changes of the build mode and matches, in particular across the internal rebuilds that these bring about, which keep every remaining pattern in its mode, and of which there are none unless something was deleted since the last. "
 "With enough traffic that matches deleted patterns, rebuilds do happen and release what the deleted patterns occupied, so that adding and deleting can go on forever.",
 ["histories", "inputs", "configurations"], "all histories of AddPattern, DeletePatterns, SetMatcherBuildMode, Copy and MatchesForEvent; identifiers of all comparable types",
 "The tests have a few fixed histories; rebuilds depend on counters, and identifiers that are deleted and added again depend on the history.",
 ["pruner.go", "live_pattern_state.go", "quamina.go"],
 [("filtering with the live set", "pruner.go matchesForFields"), ("generations of an X", "pruner.go"), ("rebuild", "pruner.go rebuildWhileLocked"), ("live set", "live_pattern_state.go")],
 "online state-machine monitor over random histories; rebuilds observed by a hook", "trusts that a pattern alone in an instance is judged correctly (C01)", hook="a point in the rebuild, to count rebuilds",
 observe=["results and errors of AddPattern, DeletePatterns, MatchesForEvent", "GetMatcherStats"])

prop("C17", "Deletion is safe and correct while other goroutines add, delete and match",
 "With any number of goroutines adding, deleting and matching on copies of an instance, a match reports every identifier that had a matching pattern in force throughout the call and none that at no time during the call had one; in particular no pattern is lost to, or brought back by, a rebuild that happens meanwhile. "
 "There are no data races or deadlocks, and when all calls have returned the instances are in the state that the history of the calls for each identifier determines.",
 ["schedules", "histories", "inputs"], "all interleavings of AddPattern, DeletePatterns, MatchesForEvent and rebuilds",
 "The tests delete concurrently in one scenario; the critical moments (a rebuild during an addition or a match) are short.",
 ["pruner.go", "live_pattern_state.go", "core_matcher.go"],
 [("locks around additions, deletions and rebuilds", "pruner.go"), ("lock of the live set", "live_pattern_state.go")],
 "Go race detector; offline checker of recorded histories; whole calls executed at hook points inside other calls", "schedules: those of the stress runs, plus all calls at every hook point",
 observe=["histories of calls on copies", "race detector reports"], hook="points inside AddPattern, DeletePatterns, MatchesForEvent and the rebuild")

prop("C18", "Instances, and copies matching in parallel, don't affect each other",
 "Independent instances may be created and used in parallel by different goroutines, for adding all kinds of patterns as well as for matching, without data races and with the results they give when used alone. "
 "Copies of an instance share its patterns, those added before and after copying and by whichever of them, and nothing else: matching different events on them in parallel gives each the result for its own event.",
 ["schedules", "inputs"], "all interleavings of calls on independent instances, and of matches on copies",
 "The tests hardly use several instances at a time; shared caches and buffers show up only under specific interleavings.",
 ["rune_range.go", "quamina.go", "flatten_json.go", "nfa.go", "character_properties.go", "numbits.go"],
 [("no global state but a cache with a lock", "rune_range.go"), ("flattener and buffers of its own for each copy", "quamina.go Copy, flatten_json.go Copy")],
 "Go race detector; comparison with results of sequential executions", "schedules: those of the stress runs",
 observe=["results on copies and independent instances", "race detector reports"])

prop("C19", "Matching is pure, and what's passed in and out belongs to the caller",
 "Matching an event gives the same result no matter which events, valid or not, were matched before on the instance or its copies, and has no effect on the event's bytes or on later results. "
 "The caller may overwrite the event's buffer and the slice returned as soon as the call has returned, without consequences for any other result; identifiers are returned as they were given.",
 ["histories", "inputs"], "all sequences of matches",
 "Buffers are reused between calls; which stale contents matter depends on the previous events. The tests use most instances for a few events.",
 ["quamina.go", "core_matcher.go", "nfa.go", "flatten_json.go", "match_set.go"],
 [("buffers reset for each call", "flatten_json.go Flatten, nfa.go"), ("results in a new slice", "match_set.go, core_matcher.go")],
 "metamorphic monitor: results in long histories compared with those of fresh instances; poisoned buffers", "compares executions of the real code with each other")

prop("C20", "The cost of matching and of adding patterns stays bounded",
 "Built for comfort, the time to match an event depends at most weakly on the number of exact, numeric, prefix and equals-ignore-case patterns, and grows no more than about proportionally with the number of wildcard, shellstyle and regexp patterns on a field, with the length of a value (up to tens of kilobytes), and with the size of the event; in particular no value takes exponential time with any regexp or set of wildcards, and for a pattern of several fields it's not the product of how many values the event has, or how many the pattern lists, for each of them. "
 "The time to add a pattern and the size of the automata grow polynomially with the size and number of patterns, equal values sharing their states, and aren't the product of the numbers of values listed for the fields of a pattern. "
 "Matching leaves nothing behind that adds up.",
 ["inputs", "histories"], "all families of patterns and values of growing size (but BuiltForSpeed's documented explosion, and quantifiers with counts inside of each other, which multiply)",
 "The tests don't measure cost, the benchmarks aren't judged, and adversarial values are missing.",
 ["nfa.go", "core_matcher.go", "epsi_closure.go", "small_table.go", "state_lists.go", "value_matcher.go", "flatten_json.go", "match_set.go"],
 [("sets of active states without duplicates", "nfa.go traverseNFA"), ("memory of merged pairs", "nfa.go mergeFAs"), ("memory of arrivals", "nfa.go isFirstArrival, core_matcher.go tryToMatch"), ("sharing what follows several values", "core_matcher.go addPatternWithPrinter"), ("early end of reading", "flatten_json.go"), ("epsilon closures without duplicates", "epsi_closure.go")],
 "runtime monitors of thread CPU time, heap size and automaton size, compared across sizes of the input", "bounds have a margin of several times what is normal; smaller regressions aren't detected",
 observe=["thread CPU time", "heap after garbage collection", "GetMatcherStats"])

prop("C21", "User-supplied flatteners and options work as documented",
 "With a user-supplied flattener, the results are those that the fields it returns determine, for any order of fields and any array positions, as they'd be if the built-in one had returned them; an error it returns is returned by the match, and each copy of the instance uses a copy of it. "
 "The tracker passed to it describes exactly the fields and nested objects that the patterns added so far mention, with their names and complete paths. "
 "Options that contradict or repeat each other, unsupported media types and nil arguments are refused.",
 ["inputs", "configurations"], "all pattern sets, all lists of fields, all combinations of options",
 "The only custom flattener in the tests is a trivial one.",
 ["flattener.go", "segments_tree.go", "segments_tree_tracker.go", "quamina.go", "core_matcher.go"],
 [("tree of path segments, copied on write", "segments_tree.go"), ("options", "quamina.go New")],
 "online monitor: a flattener that checks the tracker against a model of the paths, and results compared with the built-in one's", MODEL,
 observe=["calls to the flattener and its tracker", "results", "errors of New"])

prop("C22", "Matcher statistics are deterministic and truthful",
 "The statistics of an instance depend only on the AddPattern calls that were made: they are the same for another instance with the same calls, for all copies, and before and after any matching or refused calls. "
 "They are whole numbers that are consistent with each other, cover everything that was added, also what follows a field with a single value or an exists, the number of states is at least that of the distinct values told apart, and the number of bytes is within a small factor of the memory that large automata really occupy.",
 ["histories", "inputs"], "all sequences of AddPattern and other calls",
 "The tests look at the statistics of one or two instances.",
 ["memory_cost.go", "quamina.go", "nfa.go", "epsi_closure.go"],
 [("walk over all states", "memory_cost.go"), ("no dependence on the order of maps", "nfa.go, epsi_closure.go, core_matcher.go")],
 "metamorphic monitor comparing statistics of instances with equal histories", "compares executions of the real code with each other", observe=["GetMatcherStats"])

prop("C23", "Every Unicode character in names and values is treated faithfully",
 "For every Unicode scalar value, written as it is or in any of its escaped forms, in the event or in the pattern, in a field's name (except line feed) or in a value, at any position, a value or name matches exactly the same character and not its neighbours or prefixes of its encoding. "
 "This holds for exact values, prefixes, wildcards, regexps and equals-ignore-case values.",
 ["inputs"], "all 1,112,064 scalar values x spellings x kinds of patterns",
 "The tests contain a few dozen characters; conversions between UTF-16 escapes, UTF-8 and automata have edges at many code points.",
 ["flatten_json.go", "pattern.go", "value_matcher.go", "rune_range.go", "monocase.go", "escaping_test.go"][:5],
 [("decoding of \\u escapes", "flatten_json.go"), ("bytes above F4 reserved for marks", "small_table.go")],
 "online monitor, exhaustive over scalar values", "trusts encoding/json and unicode/utf8 of Go")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    race = open(os.path.join(V, "race_checks")).read().split()
    man = dict(version=1, setup_cmd="./setup.sh",
      hooks=dict(guard="verif", enable="go build -tags verif (run.sh builds harness/ with it, which imports /repo by a replace directive)", source_commits=["dd0e5b3b1cd8a01738f6e3800d6d3012e22d9489"]),
      checks=[dict(property=d["id"], quick_cmd=f"./run.sh {d['id']} quick", thorough_cmd=f"./run.sh {d['id']} thorough", technique=t, level="exploration",
                   level_note="Holds on the executions explored, whose number and diversity the evidence file gives; " + n + ("; built with -race." if d["id"] in race else "."))
              for d, t, n in P],
      not_applicable=[])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
main()
