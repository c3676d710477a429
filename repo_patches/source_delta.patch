From e50adbf5926974e7dfd079f796aef0f9990e3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 01/51] fix: keep a prefix match when its state is merged with
 a wildcard spinner

Merging the last state of a prefix with a spinner took the spinner's field
transitions rather than the prefix's, and epsilon-closure construction and
splice simplification discarded states with epsilons and field transitions but
no byte transitions, so {"prefix":..} stopped matching once a shellstyle or
wildcard pattern was added to the same field.
---
 epsi_closure.go |  4 ++--
 nfa.go          | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/epsi_closure.go b/epsi_closure.go
index 0b7f184..f798f43 100644
--- a/epsi_closure.go
+++ b/epsi_closure.go
@@ -208,7 +208,7 @@ func closureForState(state *faState, bufs *closureBuffers) {
 	// below. Only non-epsilon-only states are collected, so when self is
 	// epsilon-only a closureList of length 1 holds some *other* state, not self
 	// — the self-only checks must not fire on it.
-	selfWasCollected := !state.table.isEpsilonOnly()
+	selfWasCollected := !state.isEpsilonOnly()
 
 	// Generation-based visited tracking: bufs.states records which gen last
 	// visited each state, so we never clear the map between traversals.
@@ -284,7 +284,7 @@ func traverseEpsilons(start *faState, epsilons []*faState, bufs *closureBuffers)
 			continue
 		}
 		bufs.states[eps] = bufs.closureSetGen
-		if !eps.table.isEpsilonOnly() {
+		if !eps.isEpsilonOnly() {
 			bufs.closureList = append(bufs.closureList, eps)
 		}
 		traverseEpsilons(start, eps.table.epsilons, bufs)
diff --git a/nfa.go b/nfa.go
index c7bcaa0..e7b556c 100644
--- a/nfa.go
+++ b/nfa.go
@@ -23,6 +23,12 @@ type faState struct {
 	isSpinner      bool
 }
 
+// isEpsilonOnly reports whether the only thing a state contributes to a match is the states its epsilons
+// lead to. A state with fieldTransitions contributes those, even if it has no byte transitions.
+func (s *faState) isEpsilonOnly() bool {
+	return len(s.fieldTransitions) == 0 && s.table.isEpsilonOnly()
+}
+
 /*
 Here's the problem. When you have the shellstyle *, which really means ".*", there are options on how
 to implement, and they have effect on what you can do while merging, with the results highlighted by
@@ -381,7 +387,7 @@ func simplifyCollect(s *faState, visited map[*faState]bool, targets []*faState)
 	}
 	visited[s] = true
 
-	if s.table.isEpsilonOnly() {
+	if s.isEpsilonOnly() {
 		for _, eps := range s.table.epsilons {
 			targets = simplifyCollect(eps, visited, targets)
 		}
@@ -542,7 +548,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 				ceilings: nonSpinnernext.table.ceilings,
 				epsilons: append(nonSpinnernext.table.epsilons, spinner),
 			}
-			mergedState = &faState{table: mergedTable, fieldTransitions: spinner.fieldTransitions}
+			mergedState = &faState{table: mergedTable, fieldTransitions: nonSpinnernext.fieldTransitions}
 
 		default:
 			// if spinner's branch isn't a loopback, we need to merge its target with the nonspinner
-- 
2.43.0


From f5dde524bb8c4264ec3a9d470e356a51608b2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 02/51] fix: keep the nonspinner's valueTerminator transition
 in a spinner merge

A spinner has no transition on the value terminator, and the merge then dropped
the other state's, so a string value that ends where a shellstyle or wildcard
has its '*' was no longer matched.
---
 nfa.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nfa.go b/nfa.go
index e7b556c..0c17264 100644
--- a/nfa.go
+++ b/nfa.go
@@ -533,8 +533,8 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 		switch {
 		case spinnerNext == nil:
-			// illegal UTF-8
-			mergedState = nil
+			// illegal UTF-8, or the value terminator, which only the nonspinner can branch on
+			mergedState = nonSpinnernext
 
 		case nonSpinnernext == nil:
 			mergedState = spinnerNext
-- 
2.43.0


From 69029f582ea1ed382f305bf056e2b92bbffa96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 03/51] fix: don't append to slices shared with other states
 when merging NFAs

append() to the fieldTransitions or epsilons of an existing state could write
into the backing array of a slice which other states, some of them in use by
concurrent matching, also append to; a later merge then overwrote the field
transitions of an earlier one. Also keep the branch state's own epsilons when
merging two spinners.
---
 nfa.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nfa.go b/nfa.go
index 0c17264..79c2807 100644
--- a/nfa.go
+++ b/nfa.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"fmt"
+	"slices"
 	"unsafe"
 )
 
@@ -464,7 +465,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		return combined
 	}
 
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -514,7 +515,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	mKey := makeFaStepKey(spinner, nonSpinner)
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(spinner.fieldTransitions, nonSpinner.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(spinner.fieldTransitions, nonSpinner.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&spinner.table), pp.tableSerial(&nonSpinner.table)))
@@ -546,7 +547,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 			mergedTable := smallTable{
 				steps:    nonSpinnernext.table.steps,
 				ceilings: nonSpinnernext.table.ceilings,
-				epsilons: append(nonSpinnernext.table.epsilons, spinner),
+				epsilons: append(slices.Clip(nonSpinnernext.table.epsilons), spinner),
 			}
 			mergedState = &faState{table: mergedTable, fieldTransitions: nonSpinnernext.fieldTransitions}
 
@@ -581,7 +582,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -611,7 +612,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next2.table.ceilings,
 				steps:    next2.table.steps,
-				epsilons: append(state2.table.epsilons, combined),
+				epsilons: append(slices.Clip(next2.table.epsilons), combined),
 			}
 			mergedState = &faState{
 				table:            table,
@@ -622,7 +623,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next1.table.ceilings,
 				steps:    next1.table.steps,
-				epsilons: append(state1.table.epsilons, combined),
+				epsilons: append(slices.Clip(next1.table.epsilons), combined),
 			}
 			mergedState = &faState{
 				table:            table,
-- 
2.43.0


From adfcb652767b98e1167c084620085e6cc9e56276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 04/51] fix: honour an escape that immediately follows '*' in a
 wildcard pattern

---
 wildcard.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildcard.go b/wildcard.go
index b25015d..73f5c84 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -95,6 +95,10 @@ func makeWildCardFA(val []byte, pp printer) (start *faState, nextField *fieldMat
 			spinner.isSpinner = true
 
 			valIndex++
+			// what follows the '*' may also be escaped
+			if val[valIndex] == '\\' {
+				valIndex++
+			}
 			spinEscape := &faState{table: newSmallTable()}
 			spinEscape.table.epsilons = []*faState{spinner}
 			spinner.table = makeByteDotFA(spinner, pp)
-- 
2.43.0


From 5056e625ced2b545cb3057ff25c78b0fa142a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 05/51] fix: match exists:false that follows exists:true when
 no fields remain

---
 core_matcher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core_matcher.go b/core_matcher.go
index 4e0951d..2435418 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -217,12 +217,15 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 	// transition on exists:true?
 	existsTrans, ok := stateFields.existsTrue[string(fields[index].Path)]
 	if ok {
-		matches = matches.addXSingleThreaded(existsTrans.fields().matches...)
+		existsTransFields := existsTrans.fields()
+		matches = matches.addXSingleThreaded(existsTransFields.matches...)
 		for nextIndex := index + 1; nextIndex < len(fields); nextIndex++ {
 			if noArrayTrailConflict(fields[index].ArrayTrail, fields[nextIndex].ArrayTrail) {
 				tryToMatch(fields, nextIndex, existsTrans, matches, bufs)
 			}
 		}
+		// as below, an exists:false may be all that remains to be matched
+		checkExistsFalse(existsTransFields, fields, index, matches, bufs)
 	}
 
 	// an exists:false transition is possible if there is no matching field in the event
-- 
2.43.0


From a68dec89e52f16c1929eacd5e2f8a18c888bf25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 06/51] fix: don't look in arrays for fields that belong to the
 enclosing object

An array whose name appears in Patterns only as a leaf was read with the path
node of the object containing it, so {"a":[{"b":2}]} could match {"b":[2]}.
---
 flatten_json.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index 16f14e5..d33c244 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -267,7 +267,8 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 						//  { "geo": { "coords": [{"coordinates": [1,2,3]}] } }
 						// "coords" is a node.
 						// "coordinates" is a field.
-						arrayPathNode = pathNode
+						// There's nothing to find in any objects contained in the array
+						arrayPathNode = nil
 					}
 
 					err = fj.readArray(pathNode.PathForSegment(memberName), arrayPathNode)
@@ -338,7 +339,7 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 }
 
 // read an array in an incoming event, recursing as necessary into members. pathNode and fj.skipping are
-// used to bypass elements where possible.
+// used to bypass elements where possible. pathNode is nil if no Pattern mentions any field of the objects in this array.
 func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker) error {
 	// eventIndex points at [
 	var err error
@@ -392,7 +393,11 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 					fj.stepOneArrayElement()
 				}
 
-				err = fj.readObject(pathNode)
+				if pathNode == nil {
+					err = fj.skipBlock('{', '}')
+				} else {
+					err = fj.readObject(pathNode)
+				}
 
 				if err != nil {
 					return err
-- 
2.43.0


From 1d01cc328304aa7c78717e5cd9c3a40f4aee88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 07/51] fix: don't report a leaf under a name that Patterns use
 only for objects

Such a leaf was stored with an empty path, so it was matched by patterns on the
field named "", and was counted as one of the wanted fields of its object.
---
 flatten_json.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index d33c244..7b2c741 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -314,8 +314,11 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 			}
 			if val != nil {
 				if memberIsUsed {
-					fj.storeObjectMemberField(pathNode.PathForSegment(memberName), arrayTrail, val, isNumber)
-					fieldsCount--
+					// the path is nil if the name appears in Patterns only as the name of an object
+					if path := pathNode.PathForSegment(memberName); path != nil {
+						fj.storeObjectMemberField(path, arrayTrail, val, isNumber)
+						fieldsCount--
+					}
 				}
 			}
 			state = fjAfterValueState
@@ -423,7 +426,9 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 			if val != nil {
 				if fj.skipping == 0 {
 					fj.stepOneArrayElement()
-					fj.storeArrayElementField(pathName, val, isNumber)
+					if pathName != nil {
+						fj.storeArrayElementField(pathName, val, isNumber)
+					}
 				}
 			}
 			state = fjAfterValueState
-- 
2.43.0


From df1a36f61808be0a1fb80b485e0e3c1dc617af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 08/51] fix: accept '+' and '0' after 'e' in event numbers

---
 flatten_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten_json.go b/flatten_json.go
index 7b2c741..f71b9c6 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -503,7 +503,7 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 			}
 		case fjNumberAfterEState:
 			switch ch {
-			case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+			case '-', '+', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				// no-op
 			default:
 				fj.eventIndex = i
-- 
2.43.0


From b9e19182a4313b98c9e8471cf0da91369d189177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 09/51] fix: -0 is equal to 0

---
 numbits.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numbits.go b/numbits.go
index e69a364..eae0433 100644
--- a/numbits.go
+++ b/numbits.go
@@ -20,6 +20,9 @@ type numbits uint64
 
 // numbitsFromFloat64 converts a float64 value to its numbits representation.
 func numbitsFromFloat64(f float64) numbits {
+	if f == 0 {
+		f = 0 // -0 is equal to 0
+	}
 	u := math.Float64bits(f)
 	//nolint:gosec // disable G115
 	// transform without branching:
-- 
2.43.0


From bba63149c3b5cdd376ed136f402afceaa4bcc571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 10/51] fix: reject the byte 0xF5 in event strings

It can't occur in UTF-8, and is the value terminator inside automata, so a
value that contained it could match as if it ended there.
---
 flatten_json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index f71b9c6..1ec8a2b 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -655,7 +655,7 @@ func (fj *flattenJSON) readStringValue() ([]byte, error) {
 			fj.eventIndex = i
 			val, err := fj.readStringValWithEscapes(valStart)
 			return val, err
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			fj.eventIndex = i
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in string value", ch))
 		}
@@ -682,7 +682,7 @@ func (fj *flattenJSON) readStringValWithEscapes(nameStart int) ([]byte, error) {
 				return nil, err
 			}
 			val = append(val, unescaped...)
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in string value", ch))
 		} else {
 			val = append(val, ch)
@@ -712,7 +712,7 @@ func (fj *flattenJSON) readMemberName() ([]byte, error) {
 		} else if ch == '\\' {
 			fj.eventIndex = i
 			return fj.readMemberNameWithEscapes(nameStart)
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			fj.eventIndex = i
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in field name", ch))
 		}
@@ -730,7 +730,7 @@ func (fj *flattenJSON) readMemberNameWithEscapes(nameStart int) ([]byte, error)
 		if ch == '"' {
 			fj.eventIndex = from
 			return memberName, nil
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in field name", ch))
 		} else if ch == '\\' {
 			var unescaped []byte
-- 
2.43.0


From b273e5ddece3a9dd26ad0d0ad2223a9ddd2131ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 11/51] fix: decode an escape other than \u that follows a \u
 escape

It was read as a literal character, or, for an escaped quotation mark, as the
end of the string.
---
 flatten_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 1ec8a2b..36f5704 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -781,6 +781,10 @@ func (fj *flattenJSON) readTextWithEscapes(from int) ([]byte, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
+		// if some other kind of escape follows, from points at its \, which the caller has yet to process
+		if fj.event[from] == '\\' {
+			from--
+		}
 	default:
 		return nil, 0, fj.error("malformed \\-escape in text")
 	}
-- 
2.43.0


From e109fe07d3b0e9b3313b9f497a27ae0dc3e06446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 12/51] fix: reject an event that is nothing but white space

---
 flatten_json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 36f5704..5d3cb1e 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -130,6 +130,9 @@ func (fj *flattenJSON) Flatten(event []byte, tracker SegmentsTreeTracker) ([]Fie
 		// optimization to avoid calling step() and expensively construct an error object at the end of each event
 		fj.eventIndex++
 		if fj.eventIndex == len(fj.event) {
+			if state == fjStartState {
+				return nil, fj.error("no JSON object in event")
+			}
 			return fj.fields, nil
 		}
 	}
-- 
2.43.0


From 0b660a213cb6427e9923e73c2601cc28e15261b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 13/51] fix: allow a regexp to be combined with other values in
 a field

PATTERNS.md makes only exists and anything-but exclusive, and an example in
README.md combines a regexp with a string.
---
 pattern.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index cfbf314..c9f68c3 100644
--- a/pattern.go
+++ b/pattern.go
@@ -210,7 +210,6 @@ func readSpecialPattern(pb *patternBuild, valsIn []typedVal) (pathVals []typedVa
 	case "equals-ignore-case":
 		pathVals, err = readMonocaseSpecial(pb, pathVals)
 	case "regexp":
-		containsExclusive = tt
 		pathVals, err = readRegexpSpecial(pb, pathVals)
 	default:
 		err = errors.New("unrecognized in special pattern: " + tt)
-- 
2.43.0


From a896728b562b65044a03559f8ae171b1aa08275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 14/51] fix: reject Patterns that contain invalid UTF-8

---
 pattern.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pattern.go b/pattern.go
index c9f68c3..4bd441f 100644
--- a/pattern.go
+++ b/pattern.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 )
 
 type valType int
@@ -52,6 +53,12 @@ type patternBuild struct {
 // patternFromJSON compiles a JSON text provided in jsonBytes into a list of patternField structures.
 // I love naked returns and I cannot lie
 func patternFromJSON(jsonBytes []byte) (fields []*patternField, err error) {
+	// json.Decoder would quietly replace bad UTF-8
+	if !utf8.Valid(jsonBytes) {
+		err = errors.New("pattern contains invalid UTF-8")
+		return
+	}
+
 	// we can't use json.Unmarshal because it round-trips numbers through float64 and %f, so they won't end up matching
 	// what the caller actually wrote in the patternField. json.Decoder is kind of slow due to excessive
 	// memory allocation, but I haven't got around to prematurely optimizing the patternFromJSON code path
-- 
2.43.0


From b28cc8385ce6f2d0abefb2bc7b578de4ce668831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 15/51] fix: a Pattern with an empty array for some field
 matches nothing

PATTERNS.md says {"a": []} never matches any Event, but in a Pattern with
other fields such a field was ignored.
---
 core_matcher.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 2435418..7b9cb76 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -69,6 +69,13 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 		return err
 	}
 
+	// a field with no values can't match anything, and so neither can the pattern
+	for _, field := range patternFields {
+		if len(field.vals) == 0 {
+			return nil
+		}
+	}
+
 	// sort the pattern fields lexically
 	slices.SortFunc(patternFields, func(a, b *patternField) int { return cmp.Compare(a.path, b.path) })
 
@@ -97,11 +104,6 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	// combo.
 	states := []*fieldMatcher{currentFields.state}
 	for _, field := range patternFields {
-		// if the field has no values, this is a no-op
-		if len(field.vals) == 0 {
-			continue
-		}
-
 		var nextStates []*fieldMatcher
 
 		// separate handling for field exists:true/false and regular field name/val matches. Since the exists
-- 
2.43.0


From 3e15853e175d7377aff5f21598bf3b37b2eaa221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 16/51] fix: repeat only the last step of a regexp {n,}
 quantifier

The last step looped back to the first one without consuming anything, which is
right only for n=2.
---
 regexp_nfa.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/regexp_nfa.go b/regexp_nfa.go
index bc3d6c3..5715511 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -133,23 +133,21 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 		}
 
 		shellTable := atom.makeFA(PlaceholderState, pp)
-		nextMinMaxStep := nextState
 
-		var lastState *faState
+		// there's a chain of the minimum-count steps, the last of which can be repeated, so
+		// it's followed by a loopback state just as in the + case
+		loopback := &faState{table: newSmallTable()}
+		nextMinMaxStep := loopback
+
 		for counter := atom.quantMin; counter > 0; counter-- {
 			stepTable := faFromShell(&shellTable, PlaceholderState, nextMinMaxStep)
 			pp.labelTable(&stepTable, fmt.Sprintf("minmax at %d", counter))
 			state = &faState{table: stepTable}
-
-			// there's a chain of the minimum-count steps, but the last one has to
-			// loop back to the first one, so we have to remember the last one
 			if counter == atom.quantMin {
-				lastState = state
+				loopback.table.epsilons = []*faState{nextState, state}
 			}
-
 			nextMinMaxStep = state
 		}
-		lastState.table.epsilons = append(lastState.table.epsilons, state)
 
 	default:
 		state = &faState{table: atom.makeFA(nextState, pp)}
-- 
2.43.0


From 8a5ae1037ba5a3ea49a2777b2f3f045d7a0678b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 17/51] fix: don't take regexp quantifiers that count 100 or
 200 for * and {n,}

---
 regexp_reader.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index e005c67..2b8ccd0 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -57,9 +57,10 @@ var implementedRegexpFeatures = map[regexpFeature]bool{
 	rxfRange:           true,
 }
 
-// distinguished values to mark idioms like * and {}
-const regexpQuantifierMax = 100 // TODO: make this into an option
-const regexpMinimumOnly = 200
+// distinguished values to mark idioms like * and {}. They are not counts anyone could use, so that
+// {100} isn't mistaken for one of them.
+const regexpQuantifierMax = 1 << 30 // TODO: make this into an option
+const regexpMinimumOnly = 1<<30 + 1
 
 const Escape rune = '~'
 
-- 
2.43.0


From da467426b48a57ff993b81bbac16651b66f62ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 18/51] fix: allow characters above U+10FFF in regexp character
 classes

---
 regexp_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 2b8ccd0..abb51c6 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -440,7 +440,7 @@ func isCCchar(r rune) bool {
 	if r >= 0x5e && r <= 0xd7ff {
 		return true
 	}
-	if r >= 0xe000 && r <= 0x10fff {
+	if r >= 0xe000 && r <= 0x10ffff {
 		return true
 	}
 	if r == '\\' {
-- 
2.43.0


From 91a9256b02a738e24f008fd821d6af3a7e3a1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 19/51] fix: invert rune ranges that overlap or end just below
 the last code point

---
 rune_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rune_range.go b/rune_range.go
index 4e9f949..d732a15 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -136,9 +136,9 @@ func InvertRuneRange(rr RuneRange) RuneRange {
 		if pair.Lo > point {
 			inverted = append(inverted, RunePair{point, pair.Lo - 1})
 		}
-		point = pair.Hi + 1
+		point = max(point, pair.Hi+1)
 	}
-	if point < runeMax {
+	if point <= runeMax {
 		inverted = append(inverted, RunePair{point, runeMax})
 	}
 	return inverted
-- 
2.43.0


From 25411d79b00931f161678d0102892ed71a66a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 20/51] fix: don't panic on a regexp class that excludes every
 character

---
 quantified_atom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantified_atom.go b/quantified_atom.go
index 0793778..e568fe9 100644
--- a/quantified_atom.go
+++ b/quantified_atom.go
@@ -59,6 +59,9 @@ func (qa *quantifiedAtom) makeFA(nextStep *faState, pp printer) smallTable {
 		table = makeNFAFromBranches(qa.getSubtree(), nextStep, false, pp)
 	case qa.runeRangeCache() != "":
 		table = makeAndCacheRuneRangeFA(qa.runes, nextStep, qa.runeRangeCache(), pp)
+	case len(qa.runes) == 0:
+		// a negated class which excludes every character can't match anything
+		table = newSmallTable()
 	default:
 		// if it's none of these other things, it has to boil down to a rune range
 		table = makeRuneRangeNFA(qa.runes, nextStep, pp)
-- 
2.43.0


From 62a9b33769c247b6101bda6081619bf1b85714fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 21/51] fix: don't merge unfinished states when building a
 regexp group

The branches of a ()-group were merged while the state that follows the group
could still be under construction: (a|ab)* panicked, and the merged copy of
what followed (a|ab)+ or (a|ab){2} was wrong. Also, an empty branch in a group
called for a quotation mark.
---
 regexp_nfa.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/regexp_nfa.go b/regexp_nfa.go
index 5715511..16b8da3 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -35,6 +35,9 @@ func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition
 	if len(root) == 0 {
 		return makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
 	}
+	if !addQuoteTransition {
+		return makeNFAFromGroup(root, nextStep, pp)
+	}
 	var fa smallTable
 	first := true
 	for _, branch := range root {
@@ -55,6 +58,43 @@ func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition
 	return fa
 }
 
+// makeNFAFromGroup makes the NFA for a ()-group. Branches of which no two start with the same byte are combined in
+// one table. Others are reached through epsilons rather than being merged, because nextStep, which they may lead to
+// and whose table may not have been filled in yet, mustn't be merged with anything.
+func makeNFAFromGroup(root regexpRoot, nextStep *faState, pp printer) smallTable {
+	if len(root) == 1 && len(root[0]) > 0 {
+		return faFromBranch(root[0], nextStep, false, pp)
+	}
+	fa := newSmallTable()
+	var epsilons []*faState
+	for _, branch := range root {
+		if len(branch) == 0 {
+			epsilons = append(epsilons, nextStep)
+			continue
+		}
+		table := faFromBranch(branch, nextStep, false, pp)
+		if len(table.epsilons) == 0 && noCommonBytes(&fa, &table) {
+			fa = mergeFAs(&fa, &table, pp)
+		} else {
+			epsilons = append(epsilons, &faState{table: table})
+		}
+	}
+	fa.epsilons = epsilons
+	return fa
+}
+
+// noCommonBytes reports whether there is no byte on which the two tables have different transitions
+func noCommonBytes(table1, table2 *smallTable) bool {
+	iter1, iter2 := newSTIterator(table1, nil), newSTIterator(table2, nil)
+	for iter1.hasNext() {
+		next1, next2 := iter1.nextState(), iter2.nextState()
+		if next1 != nil && next2 != nil && next1 != next2 {
+			return false
+		}
+	}
+	return true
+}
+
 func faFromBranch(branch regexpBranch, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
 	state := faFromQuantifiedAtom(branch, 0, nextStep, pp)
 	table := state.table
-- 
2.43.0


From 50d3655b1d8e41eea994b909acd578b7b34474b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 22/51] fix: treat nothing after the last | of a regexp as an
 empty branch

---
 regexp_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regexp_reader.go b/regexp_reader.go
index abb51c6..14b7816 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -191,6 +191,10 @@ func readBranches(parse *regexpParse) error {
 		b, _ = parse.nextRune() // we already know we're not at EOF
 		if b == '|' {
 			parse.features.recordFeature(rxfOrBar)
+			if parse.isEmpty() {
+				// nothing after the |, so the last branch is empty
+				parse.tree = append(parse.tree, regexpBranch{})
+			}
 			continue
 		} else if b == ')' {
 			parse.backup1(b)
-- 
2.43.0


From cb69121b4bc4a7319b71ff0e731e665ba5c50c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 23/51] fix: don't take exponential time to find whether a
 regexp NFA is deterministic

---
 small_table.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/small_table.go b/small_table.go
index d956fc5..6afaaa8 100644
--- a/small_table.go
+++ b/small_table.go
@@ -201,12 +201,20 @@ func (t *smallTable) addByteStep(utf8Byte byte, step *faState) {
 // FA-building time, but doing so and then sending the status over to the valueMatcher
 // turned out to be complex, as opposed to the following, which is not only simple but fast.
 func (t *smallTable) isNondeterministic() bool {
+	return t.hasReachableEpsilons(make(map[*faState]bool))
+}
+
+// seen avoids visiting states once for every path that leads to them, of which there may be a huge number
+func (t *smallTable) hasReachableEpsilons(seen map[*faState]bool) bool {
 	if len(t.epsilons) > 0 {
 		return true
 	}
 	for _, step := range t.steps {
-		if step != nil && step.table.isNondeterministic() {
-			return true
+		if step != nil && !seen[step] {
+			seen[step] = true
+			if step.table.hasReachableEpsilons(seen) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From 226b032c1a287d68062ec596965b74a4af60d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 24/51] fix: bound the number of states traverseNFA keeps
 active

States reached along more than one path were kept, and followed, once for each,
so matching against regexps such as (a*a*)* took time exponential in the length
of the value.
---
 nfa.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nfa.go b/nfa.go
index 79c2807..4885a94 100644
--- a/nfa.go
+++ b/nfa.go
@@ -1,6 +1,7 @@
 package quamina
 
 import (
+	"cmp"
 	"fmt"
 	"slices"
 	"unsafe"
@@ -318,6 +319,12 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 			}
 		}
 
+		// different states may have had the same next states. Without this, the number of duplicates
+		// could double with each byte
+		if len(nextStates) > dedupStatesThreshold {
+			nextStates = dedupStates(nextStates)
+		}
+
 		// re-use these
 		swapStates := currentStates
 		currentStates = nextStates
@@ -356,6 +363,16 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 	return buf
 }
 
+// a few duplicates cost less than removing them does
+const dedupStatesThreshold = 64
+
+func dedupStates(states []*faState) []*faState {
+	slices.SortFunc(states, func(a, b *faState) int {
+		return cmp.Compare(uintptr(unsafe.Pointer(a)), uintptr(unsafe.Pointer(b)))
+	})
+	return slices.Compact(states)
+}
+
 type faStepKey struct {
 	step1 *faState
 	step2 *faState
-- 
2.43.0


From d26c5f0a7951e5bca9325b5dfbcbd57d6816224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 25/51] fix: don't reuse the slice of matches returned to the
 caller

---
 core_matcher.go | 11 +++--------
 match_set.go    |  9 ---------
 nfa.go          |  2 --
 3 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 7b9cb76..46b6fdb 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -153,13 +153,7 @@ func (m *coreMatcher) matchesForJSONEvent(event []byte) ([]X, error) {
 func (m *coreMatcher) matchesForJSONWithFlattener(event []byte, f Flattener) ([]X, error) {
 	fields, _ := f.Flatten(event, m.getSegmentsTreeTracker())
 	bufs := nfaBuffersPool.Get().(*nfaBuffers)
-	defer func() {
-		// Detach the result slice from bufs before returning to the pool: the
-		// returned []X aliases bufs.resultBuf's backing array, and a subsequent
-		// pool user must not be able to write through it.
-		bufs.resultBuf = make([]X, 0, 16)
-		nfaBuffersPool.Put(bufs)
-	}()
+	defer nfaBuffersPool.Put(bufs)
 	return m.matchesForFields(fields, bufs)
 }
 
@@ -207,7 +201,8 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	for i := 0; i < len(fields); i++ {
 		tryToMatch(fields, i, cmFields.state, matches, bufs)
 	}
-	return matches.matchesInto(bufs.resultBuf[:0]), nil
+	// the result belongs to the caller, so it can't share memory with anything in bufs
+	return matches.matches(), nil
 }
 
 // tryToMatch tries to match the field at fields[index] to the provided state. If it does match and generate
diff --git a/match_set.go b/match_set.go
index 712d684..1da255e 100644
--- a/match_set.go
+++ b/match_set.go
@@ -46,12 +46,3 @@ func (m *matchSet) matches() []X {
 	}
 	return matches
 }
-
-// matchesInto appends matches to the provided buffer and returns it.
-// This avoids allocating a new slice for the result.
-func (m *matchSet) matchesInto(buf []X) []X {
-	for x := range m.set {
-		buf = append(buf, x)
-	}
-	return buf
-}
diff --git a/nfa.go b/nfa.go
index 4885a94..d05475b 100644
--- a/nfa.go
+++ b/nfa.go
@@ -104,7 +104,6 @@ type nfaBuffers struct {
 	buf1, buf2     []*faState
 	matches        *matchSet
 	transitionsBuf []*fieldMatcher
-	resultBuf      []X
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
@@ -113,7 +112,6 @@ type nfaBuffers struct {
 func newNfaBuffers() *nfaBuffers {
 	return &nfaBuffers{
 		transitionsBuf: make([]*fieldMatcher, 0, 16),
-		resultBuf:      make([]X, 0, 16),
 	}
 }
 
-- 
2.43.0


From 676cb76cbb06ea521377bfef08e31596f484875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 26/51] fix: guard the cache of rune range automata shared by
 all instances

---
 rune_range.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rune_range.go b/rune_range.go
index d732a15..23bdf67 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -5,17 +5,19 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync"
 )
 
 // It turns out that makeRuneRangeNFA is an expensive call that burns memory.  So for the big
 // RuneRange FAs, we compute and cache shells. A shell is an FA computed with the "next" value
 // being PlaceholderState.  When you need a rune range FA, you take the shell and build a copy,
 // replacing transitions to PlaceholderState by whatever the "next" value is.
-// Note that FAs are only built during AddPattern calls and this is single-threaded, so we
-// can safely build and update the cachedRRFaShells
+// AddPattern calls on independent Quamina instances may run in parallel, so access to cachedFaShells
+// is guarded by cachedFaShellsLock. Once stored, a shell is only read.
 
 var PlaceholderState *faState = &faState{table: newSmallTable()}
 var cachedFaShells = make(map[string]smallTable)
+var cachedFaShellsLock sync.Mutex
 
 func faFromShell(shell *smallTable, oldNext *faState, newNext *faState) smallTable {
 	return copyShellNode(&faState{table: *shell}, oldNext, newNext, make(map[*faState]*faState)).table
@@ -98,11 +100,13 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 
 func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printer) smallTable {
 	if name != "" {
+		cachedFaShellsLock.Lock()
 		fa, ok := cachedFaShells[name]
 		if !ok {
 			fa = makeAndCacheRuneRangeFA(rr, PlaceholderState, "", pp)
 			cachedFaShells[name] = fa
 		}
+		cachedFaShellsLock.Unlock()
 		return faFromShell(&fa, PlaceholderState, next)
 	}
 
-- 
2.43.0


From 4be3754e7b2cb36d887101571abc3626901bdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 27/51] fix: don't bring back deleted patterns or lose added
 ones in prunerMatcher

A pattern that was deleted came back when its X was added again; a rebuild in
another goroutine lost a pattern whose addition was in progress; and the
pointer to the underlying Matcher was read without synchronization.
---
 pruner.go | 102 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 84 insertions(+), 18 deletions(-)

diff --git a/pruner.go b/pruner.go
index dd2d2bb..ad205ee 100644
--- a/pruner.go
+++ b/pruner.go
@@ -72,13 +72,31 @@ type prunerMatcher struct {
 	// If nil, no automatic rebuild is ever triggered.
 	rebuildTrigger rebuildTrigger
 
-	// lock protects the pointer the underlying Matcher as well as stats.
+	// generations has an entry for each X that has been deleted since the last
+	// rebuild, counting how often. Matcher still contains the patterns that were
+	// added for such an X before it was deleted. To tell those from patterns that
+	// are added afterward, the latter are given to Matcher with a prunerX.
+	generations map[X]int
+
+	// updating is held during addPattern, deletePatterns, and rebuild, so that
+	// what one does to Matcher and live isn't interleaved with another. When both
+	// are needed, it's acquired before lock.
+	updating sync.Mutex
+
+	// lock protects the pointer the underlying Matcher as well as generations and stats.
 	//
 	// The Matcher pointer is updated after a successful rebuild.
 	// Stats are updated by Add, Delete, and rebuild.
 	lock sync.RWMutex
 }
 
+// prunerX is the X given to the underlying Matcher for a pattern whose X was deleted
+// previously, and whose older patterns are still in the Matcher.
+type prunerX struct {
+	x          X
+	generation int
+}
+
 var defaultRebuildTrigger = newTooMuchFiltering(0.2, 1000)
 
 // nolint:gofmt,goimports
@@ -173,6 +191,7 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 	return &prunerMatcher{
 		Matcher:        newCoreMatcher(),
 		live:           s,
+		generations:    make(map[X]int),
 		rebuildTrigger: &trigger,
 	}
 }
@@ -181,43 +200,64 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 // trigger said to do that.  If rebuildTrigger is nil, no rebuildWhileLocked is
 // executed.
 //
-// This method assumes the caller has a write lock.
+// This method assumes the caller holds updating and has a write lock.
 func (m *prunerMatcher) maybeRebuild(added bool) error {
-	if m.rebuildTrigger == nil {
-		return nil
-	}
-	if m.rebuildTrigger.rebuild(added, &m.stats) {
+	if m.needsRebuild(added) {
 		return m.rebuildWhileLocked(added)
 	}
 
 	return nil
 }
 
+// needsRebuild returns what rebuildTrigger says, which is false if there isn't one.
+//
+// This method assumes the caller has a write lock.
+func (m *prunerMatcher) needsRebuild(added bool) bool {
+	return m.rebuildTrigger != nil && m.rebuildTrigger.rebuild(added, &m.stats)
+}
+
 // addPattern calls the underlying quamina.coreMatcher.addPattern
 // method and then maybe rebuilds the index (if the addPattern
 // succeeded).
 func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode) error {
+	m.updating.Lock()
+	defer m.updating.Unlock()
+
 	var err error
+	matcherX := x
+	matcher, generations := m.current()
+	if generation := generations[x]; generation != 0 {
+		matcherX = prunerX{x: x, generation: generation}
+	}
 
 	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
-	if err = m.Matcher.addPattern(x, pat, buildMode); err == nil {
+	if err = matcher.addPattern(matcherX, pat, buildMode); err == nil {
+		// live has to have the pattern before any rebuild, which would lose it otherwise
+		err = m.live.Add(x, pat, buildMode)
+		// ToDo: Contemplate what do to about an error here
+		// (or if we got an error from addPattern after we did
+		// live.Add.
 		m.lock.Lock()
 		m.stats.Added++
 		m.stats.Live++
 		_ = m.maybeRebuild(true)
 		m.lock.Unlock()
-		err = m.live.Add(x, pat, buildMode)
-		// ToDo: Contemplate what do to about an error here
-		// (or if we got an error from addPattern after we did
-		// live.Add.
 	}
 
 	return err
 }
 
+// current returns the underlying Matcher and the generations that go with it. The caller must
+// have acquired lock in order to use the latter, unless it holds updating.
+func (m *prunerMatcher) current() (*coreMatcher, map[X]int) {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	return m.Matcher, m.generations
+}
+
 // MatchesForJSONEvent calls MatchesForFields with a new Flattener.
 func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
-	fs, err := newJSONFlattener().Flatten(event, m.Matcher.fields().segmentsTree)
+	fs, err := newJSONFlattener().Flatten(event, m.getSegmentsTreeTracker())
 	if err != nil {
 		return nil, err
 	}
@@ -225,28 +265,38 @@ func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
 }
 
 func (m *prunerMatcher) getStats() *matcherStats {
-	return m.Matcher.getStats()
+	matcher, _ := m.current()
+	return matcher.getStats()
 }
 
 // MatchesForFields calls the underlying
 // quamina.coreMatcher.matchesForFields and then maybe rebuilds the
 // index.
 func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, error) {
-	xs, err := m.Matcher.matchesForFields(fields, bufs)
+	matcher, generations := m.current()
+	xs, err := matcher.matchesForFields(fields, bufs)
 	if err != nil {
 		return nil, err
 	}
 
-	// Remove any X that isn't in the live set.
+	// Remove any X that isn't in the live set, or matched by way of a pattern that was
+	// deleted before the X was added again.
 
 	acc := make([]X, 0, len(xs))
 
 	var emitted, filtered int64
 	for _, x := range xs {
+		generation := 0
+		if px, ok := x.(prunerX); ok {
+			x, generation = px.x, px.generation
+		}
 		have, err := m.live.Contains(x)
 		if err != nil {
 			return nil, err
 		}
+		m.lock.RLock()
+		have = have && generation == generations[x]
+		m.lock.RUnlock()
 		if !have {
 			filtered++
 			continue
@@ -258,19 +308,31 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 	m.lock.Lock()
 	m.stats.Filtered += filtered
 	m.stats.Emitted += emitted
-	_ = m.maybeRebuild(false)
+	rebuild := m.needsRebuild(false)
 	m.lock.Unlock()
 
+	if rebuild {
+		m.updating.Lock()
+		m.lock.Lock()
+		_ = m.maybeRebuild(false) // checks again, because another goroutine may have done it
+		m.lock.Unlock()
+		m.updating.Unlock()
+	}
+
 	return acc, nil
 }
 
 // DeletePattern removes the pattern from the index and maybe rebuilds
 // the index.
 func (m *prunerMatcher) deletePatterns(x X) error {
+	m.updating.Lock()
+	defer m.updating.Unlock()
+
 	n, err := m.live.Delete(x)
 	if err == nil {
 		if 0 < n {
 			m.lock.Lock()
+			m.generations[x]++
 			m.stats.Deleted += n
 			m.stats.Live -= n
 			_ = m.maybeRebuild(false)
@@ -288,13 +350,15 @@ func (m *prunerMatcher) deletePatterns(x X) error {
 //
 // This method resets the prunerStats.
 func (m *prunerMatcher) rebuild(fearlessly bool) error {
+	m.updating.Lock()
 	m.lock.Lock()
 	err := m.rebuildWhileLocked(fearlessly)
 	m.lock.Unlock()
+	m.updating.Unlock()
 	return err
 }
 
-// rebuildWhileLocked is rebuild but assumes having the lock.
+// rebuildWhileLocked is rebuild but assumes holding updating and having the lock.
 func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 	// We assume we have the lock.
 
@@ -321,6 +385,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 
 	if err == nil {
 		m.Matcher = m1
+		m.generations = make(map[X]int)
 		m.stats.RebuildPurged = m.stats.Deleted
 		m.stats.Live = count
 		m.stats.Added = 0
@@ -343,5 +408,6 @@ func (m *prunerMatcher) getPrunerStats() prunerStats {
 }
 
 func (m *prunerMatcher) getSegmentsTreeTracker() SegmentsTreeTracker {
-	return m.Matcher.getSegmentsTreeTracker()
+	matcher, _ := m.current()
+	return matcher.getSegmentsTreeTracker()
 }
-- 
2.43.0


From 2f17002d75da5e63bdba5d71316eafadad84e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 28/51] fix: don't match exists:false for a field that was
 added after the event was flattened

---
 core_matcher.go  |  2 +-
 nfa.go           |  9 +++++++++
 quamina.go       |  4 +++-
 segments_tree.go | 17 +++++++++++++++++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 46b6fdb..4c37d01 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -270,7 +270,7 @@ func checkExistsFalse(stateFields *fmFields, fields []Field, index int, matches
 				break
 			}
 		}
-		if i == len(fields) {
+		if i == len(fields) && bufs.wasFlattened(existsFalsePath) {
 			matches = matches.addXSingleThreaded(existsFalseTrans.fields().matches...)
 			if thisFieldIsAnExistsFalse {
 				tryToMatch(fields, index+1, existsFalseTrans, matches, bufs)
diff --git a/nfa.go b/nfa.go
index d05475b..21141ea 100644
--- a/nfa.go
+++ b/nfa.go
@@ -107,6 +107,8 @@ type nfaBuffers struct {
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
+	// segmentsTree is the one used to flatten the event being matched, nil if not known
+	segmentsTree *segmentsTree
 }
 
 func newNfaBuffers() *nfaBuffers {
@@ -115,6 +117,13 @@ func newNfaBuffers() *nfaBuffers {
 	}
 }
 
+// wasFlattened reports whether the Flattener was asked to select the path. This isn't the case if the path
+// was added to the matcher after the event was flattened; then the fact that the field isn't among the
+// flattened ones doesn't mean that it isn't in the event.
+func (nb *nfaBuffers) wasFlattened(path string) bool {
+	return nb.segmentsTree == nil || nb.segmentsTree.containsPath(path)
+}
+
 func (nb *nfaBuffers) getBuf1() []*faState {
 	if nb.buf1 == nil {
 		nb.buf1 = make([]*faState, 0, 16)
diff --git a/quamina.go b/quamina.go
index 74a8a0e..b9ad65f 100644
--- a/quamina.go
+++ b/quamina.go
@@ -144,10 +144,12 @@ func (q *Quamina) DeletePatterns(x X) error {
 // if no patterns match. error can be returned in case that the event is not a valid JSON object or contains
 // invalid UTF-8 byte sequences.
 func (q *Quamina) MatchesForEvent(event []byte) ([]X, error) {
-	fields, err := q.flattener.Flatten(event, q.matcher.getSegmentsTreeTracker())
+	tracker := q.matcher.getSegmentsTreeTracker()
+	fields, err := q.flattener.Flatten(event, tracker)
 	if err != nil {
 		return nil, err
 	}
+	q.bufs.segmentsTree, _ = tracker.(*segmentsTree)
 	return q.matcher.matchesForFields(fields, q.bufs)
 }
 
diff --git a/segments_tree.go b/segments_tree.go
index a927330..6ddc2f3 100644
--- a/segments_tree.go
+++ b/segments_tree.go
@@ -83,6 +83,23 @@ func (p *segmentsTree) addSegment(segment string, path []byte) {
 	}
 }
 
+// containsPath reports whether the path has been added to the tree
+func (p *segmentsTree) containsPath(path string) bool {
+	node := p
+	for {
+		segment, rest, isNode := strings.Cut(path, SegmentSeparator)
+		if !isNode {
+			_, ok := node.fields[segment]
+			return ok
+		}
+		next, ok := node.nodes[segment]
+		if !ok {
+			return false
+		}
+		node, path = next, rest
+	}
+}
+
 // Get implements SegmentsTreeTracker
 func (p *segmentsTree) Get(name []byte) (SegmentsTreeTracker, bool) {
 	n, ok := p.nodes[string(name)]
-- 
2.43.0


From 89dc153a34695c94f958563fd6ac7f15bc646ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 29/51] fix: U+10FFFE and U+10FFFF are among the unassigned
 characters

---
 character_properties.go          | 8 ++++----
 code_gen/build_unicode_tables.go | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/character_properties.go b/character_properties.go
index ffd22be..31ec13d 100644
--- a/character_properties.go
+++ b/character_properties.go
@@ -258,7 +258,7 @@ var characterProperties = map[string]RuneRange{
 		{0x2fa1e, 0x2ffff}, {0x3134b, 0x3134f}, {0x3347a, 0xe0000},
 		{0xe0001, 0xe0001}, {0xe0002, 0xe001f}, {0xe0020, 0xe007f},
 		{0xe0080, 0xe00ff}, {0xe01f0, 0xeffff}, {0xf0000, 0xffffd},
-		{0xffffe, 0xfffff}, {0x100000, 0x10fffd},
+		{0xffffe, 0xfffff}, {0x100000, 0x10fffd}, {0x10fffe, 0x10ffff},
 	},
 	"Cc": {
 		{0x0000, 0x001f}, {0x007f, 0x009f},
@@ -517,7 +517,7 @@ var characterProperties = map[string]RuneRange{
 		{0x2b81e, 0x2b81f}, {0x2ceae, 0x2ceaf}, {0x2ebe1, 0x2ebef},
 		{0x2ee5e, 0x2f7ff}, {0x2fa1e, 0x2ffff}, {0x3134b, 0x3134f},
 		{0x3347a, 0xe0000}, {0xe0002, 0xe001f}, {0xe0080, 0xe00ff},
-		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff},
+		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff}, {0x10fffe, 0x10ffff},
 	},
 	"Co": {
 		{0xe000, 0xf8ff}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
@@ -3105,7 +3105,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x1fb00, 0x1fb92}, {0x1fb94, 0x1fbfa}, {0x20000, 0x2a6df},
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
-		{0x31350, 0x33479}, {0xe0100, 0xe01ef}, {0x10fffe, 0x10ffff},
+		{0x31350, 0x33479}, {0xe0100, 0xe01ef},
 	},
 	"Cc": {
 		{0x0020, 0x007e}, {0x00a0, 0x10ffff},
@@ -3365,7 +3365,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
 		{0x31350, 0x33479}, {0xe0001, 0xe0001}, {0xe0020, 0xe007f},
-		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10ffff},
+		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
 	},
 	"Co": {
 		{0x0000, 0xdfff}, {0xf900, 0xeffff}, {0xffffe, 0xfffff},
diff --git a/code_gen/build_unicode_tables.go b/code_gen/build_unicode_tables.go
index 215ff19..282f057 100644
--- a/code_gen/build_unicode_tables.go
+++ b/code_gen/build_unicode_tables.go
@@ -87,7 +87,7 @@ func buildCharPropsTable() {
 	}
 
 	// let's waste some memory by just making an array for every codepoint
-	var props [runeMax]string
+	var props [runeMax + 1]string
 
 	// Cn means unassigned, which we assume everything is until it isn't
 	for i := range props {
@@ -146,6 +146,7 @@ func buildCharPropsTable() {
 			currentProp = props[i]
 		}
 	}
+	recordPair(currentStartsAt, runeMax, currentProp, doubles)
 
 	// now record the single-letter properties
 	singles := make(map[string]quamina.RuneRange)
-- 
2.43.0


From ede2f037fb84b58c9b098fd421eee74cbd5296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 30/51] fix: equals-ignore-case for characters with more than
 two case variants

---
 monocase.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/monocase.go b/monocase.go
index 68a41bf..41cb58d 100644
--- a/monocase.go
+++ b/monocase.go
@@ -3,6 +3,8 @@ package quamina
 import (
 	"errors"
 	"fmt"
+	"slices"
+	"sync"
 	"unicode/utf8"
 )
 
@@ -40,6 +42,26 @@ func readMonocaseSpecial(pb *patternBuild, valsIn []typedVal) (pathVals []typedV
 // multi-byte and in fact not even the same number of bytes. So in that case you need two paths forward that step
 // through the bytes of each form and then rejoin to arrive at a state. Also note
 // that in many cases the upper/lower case versions of a rune have leading bytes in common
+// caseFoldingClasses covers the characters that have more than one other character with the same case folding,
+// for example 'k', 'K', and U+212A KELVIN SIGN. Each of them is mapped to all the members of its class.
+var caseFoldingClasses = sync.OnceValue(func() map[rune]RuneRange {
+	// in caseFoldingPairs, all the other members of such a class are mapped to the same one
+	others := make(map[rune]RuneRange)
+	for from, to := range caseFoldingPairs {
+		others[to] = append(others[to], RunePair{from, from})
+	}
+	classes := make(map[rune]RuneRange)
+	for r, class := range others {
+		if len(class) > 1 {
+			class = append(class, RunePair{r, r})
+			for _, member := range class {
+				classes[member.Lo] = class
+			}
+		}
+	}
+	return classes
+})
+
 func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 	fm := newFieldMatcher()
 	index := 0
@@ -57,7 +79,9 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 		}
 		nextStep = &faState{table: newSmallTable()}
 		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, alt=%v", val[index], alt))
-		if alt == nil {
+		if class, ok := caseFoldingClasses()[r]; ok {
+			*currentTable = makeRuneRangeNFA(slices.Clone(class), nextStep, pp)
+		} else if alt == nil {
 			// easy case, no casefolding issues.  We should maybe try to coalesce these
 			// no-casefolding sections and only call makeFAFragment once for all of them
 			origFA := makeFAFragment(orig, nextStep, pp)
-- 
2.43.0


From dd0e5b3b1cd8a01738f6e3800d6d3012e22d9489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 31/51] verification points, enabled by the build tag verif

---
 core_matcher.go  |  3 +++
 field_matcher.go |  1 +
 pruner.go        |  5 +++++
 value_matcher.go |  1 +
 verif_off.go     |  7 +++++++
 verif_on.go      | 14 ++++++++++++++
 6 files changed, 31 insertions(+)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/core_matcher.go b/core_matcher.go
index 4c37d01..de87a5e 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -128,7 +128,9 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	for _, endState := range states {
 		endState.addMatch(x)
 	}
+	verifPoint("coreMatcher.addPattern.beforeStore")
 	m.updateable.Store(freshStart)
+	verifPoint("coreMatcher.addPattern.afterStore")
 
 	return nil
 }
@@ -193,6 +195,7 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	if tm := bufs.transmap; tm != nil {
 		tm.resetDepth()
 	}
+	verifPoint("coreMatcher.matchesForFields")
 	cmFields := m.fields()
 
 	// for each of the fields, we'll try to match the automaton start state to that field - the tryToMatch
diff --git a/field_matcher.go b/field_matcher.go
index 1e696ce..1911a0e 100644
--- a/field_matcher.go
+++ b/field_matcher.go
@@ -33,6 +33,7 @@ func (m *fieldMatcher) fields() *fmFields {
 
 func (m *fieldMatcher) update(fields *fmFields) {
 	m.updateable.Store(fields)
+	verifPoint("fieldMatcher.update")
 }
 
 func (m *fieldMatcher) addMatch(x X) {
diff --git a/pruner.go b/pruner.go
index ad205ee..a1ed24c 100644
--- a/pruner.go
+++ b/pruner.go
@@ -232,11 +232,13 @@ func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode)
 
 	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
 	if err = matcher.addPattern(matcherX, pat, buildMode); err == nil {
+		verifPoint("prunerMatcher.addPattern.beforeLive")
 		// live has to have the pattern before any rebuild, which would lose it otherwise
 		err = m.live.Add(x, pat, buildMode)
 		// ToDo: Contemplate what do to about an error here
 		// (or if we got an error from addPattern after we did
 		// live.Add.
+		verifPoint("prunerMatcher.addPattern.afterLive")
 		m.lock.Lock()
 		m.stats.Added++
 		m.stats.Live++
@@ -282,6 +284,7 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 	// Remove any X that isn't in the live set, or matched by way of a pattern that was
 	// deleted before the X was added again.
 
+	verifPoint("prunerMatcher.matchesForFields.beforeFilter")
 	acc := make([]X, 0, len(xs))
 
 	var emitted, filtered int64
@@ -329,6 +332,7 @@ func (m *prunerMatcher) deletePatterns(x X) error {
 	defer m.updating.Unlock()
 
 	n, err := m.live.Delete(x)
+	verifPoint("prunerMatcher.deletePatterns.afterLive")
 	if err == nil {
 		if 0 < n {
 			m.lock.Lock()
@@ -383,6 +387,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		return err
 	})
 
+	verifPoint("prunerMatcher.rebuild.beforeStore")
 	if err == nil {
 		m.Matcher = m1
 		m.generations = make(map[X]int)
diff --git a/value_matcher.go b/value_matcher.go
index 67083f2..d926656 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -42,6 +42,7 @@ func (m *valueMatcher) getFieldsForUpdate() *vmFields {
 
 func (m *valueMatcher) update(state *vmFields) {
 	m.updateable.Store(state)
+	verifPoint("valueMatcher.update")
 }
 
 func newValueMatcher() *valueMatcher {
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..864b376
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package quamina
+
+// verifPoint marks the points at which runtime verification, enabled by the build tag "verif",
+// may observe or delay a goroutine. Without that tag it does nothing.
+func verifPoint(string) {}
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..f52e7c4
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package quamina
+
+import "sync/atomic"
+
+// VerifHook, if set, is called with the name of each verification point that a goroutine passes.
+var VerifHook atomic.Pointer[func(point string)]
+
+func verifPoint(point string) {
+	if hook := VerifHook.Load(); hook != nil {
+		(*hook)(point)
+	}
+}
-- 
2.43.0


From 5bc531616b68d67be6b5536775409bb669182004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 32/51] fix: don't overwrite the DFA transitions that
 tryToMatch is iterating

---
 nfa.go           | 20 +++++++++++---------
 value_matcher.go |  3 ++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/nfa.go b/nfa.go
index 21141ea..1f8551c 100644
--- a/nfa.go
+++ b/nfa.go
@@ -85,6 +85,11 @@ func (tm *transmap) push() {
 	tm.levels[tm.depth] = tm.levels[tm.depth][:0]
 }
 
+// buffer returns the empty buffer of the current level, which is the lowest one if there was no push().
+func (tm *transmap) buffer() []*fieldMatcher {
+	return tm.levels[max(tm.depth, 0)][:0]
+}
+
 // pop decrements depth. The buffer at the previous depth remains valid
 // until the next push() at that depth or resetDepth().
 func (tm *transmap) pop() {
@@ -101,20 +106,17 @@ func (tm *transmap) resetDepth() {
 // the incoming event patterns and matcher structures and eventually the amount of event-matching memory
 // allocation will be reduced to nearly zero.
 type nfaBuffers struct {
-	buf1, buf2     []*faState
-	matches        *matchSet
-	transitionsBuf []*fieldMatcher
-	transmap       *transmap
-	fieldSet       map[*fieldMatcher]bool
-	qNumBuf        [MaxBytesInEncoding]byte
+	buf1, buf2 []*faState
+	matches    *matchSet
+	transmap   *transmap
+	fieldSet   map[*fieldMatcher]bool
+	qNumBuf    [MaxBytesInEncoding]byte
 	// segmentsTree is the one used to flatten the event being matched, nil if not known
 	segmentsTree *segmentsTree
 }
 
 func newNfaBuffers() *nfaBuffers {
-	return &nfaBuffers{
-		transitionsBuf: make([]*fieldMatcher, 0, 16),
-	}
+	return &nfaBuffers{}
 }
 
 // wasFlattened reports whether the Flattener was asked to select the path. This isn't the case if the path
diff --git a/value_matcher.go b/value_matcher.go
index d926656..c1b6490 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -53,7 +53,8 @@ func newValueMatcher() *valueMatcher {
 
 func (m *valueMatcher) transitionOn(eventField *Field, bufs *nfaBuffers) []*fieldMatcher {
 	vmFields := m.fields()
-	transitions := bufs.transitionsBuf[:0]
+	// the result is iterated by tryToMatch, which calls here recursively, so each level has a buffer of its own
+	transitions := bufs.getTransmap().buffer()
 
 	val := eventField.Val
 	switch {
-- 
2.43.0


From 6010e88633a737ab84998b96d2e5aeb0671f69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 33/51] fix: don't take the closing quote of a value for the
 last character of a prefix

---
 value_matcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value_matcher.go b/value_matcher.go
index c1b6490..1a2312a 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -208,6 +208,10 @@ func makeOnePrefixFAStep(val []byte, index int, nextField *fieldMatcher) smallTa
 	var nextState *faState
 	if index == len(val)-2 {
 		nextState = &faState{table: newSmallTable(), fieldTransitions: []*fieldMatcher{nextField}}
+		if index > 0 && val[index] == '"' {
+			// in the value this might be the closing ", unless something other than the valueTerminator follows
+			nextState = &faState{table: makeSmallTable(nextState, []byte{valueTerminator}, []*faState{nil})}
+		}
 	} else {
 		nextState = &faState{table: makeOnePrefixFAStep(val, index+1, nextField)}
 	}
-- 
2.43.0


From 72a03367dde094f5a13dc3856f997222da287c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 34/51] fix: allow U+FFFD in regexps

---
 regexp_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_parse.go b/regexp_parse.go
index afbb942..26c643f 100644
--- a/regexp_parse.go
+++ b/regexp_parse.go
@@ -48,7 +48,7 @@ func (p *regexpParse) nextRune() (rune, error) {
 	}
 	p.lastIndex = p.index
 	c, length := utf8.DecodeRune(p.bytes[p.index:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && length <= 1 { // otherwise it's a valid U+FFFD
 		return 0, fmt.Errorf("UTF-8 encoding error at offset %d", p.lastOffset())
 	}
 	p.index += length
-- 
2.43.0


From 40958b6010ca147125b8ac2e7d38da02401eb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 35/51] fix: don't let a longer anything-but value hide one
 that ends at its quotation mark

---
 anything_but.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anything_but.go b/anything_but.go
index ab57fed..9818092 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -122,6 +122,11 @@ func makeOneMultiAnythingButStep(vals [][]byte, index int, success *faState) sma
 	// if you hit the valueTerminator, success for everything else
 	for utf8Byte := range valsEndingHere {
 		failState := &faState{table: newSmallTable()} // note no transitions
+		if _, ok := valsWithBytesRemaining[utf8Byte]; ok {
+			// a closing " where another val has a " that's followed by further characters
+			u[utf8Byte].table.addByteStep(valueTerminator, failState)
+			continue
+		}
 		lastTable := makeSmallTable(success, []byte{valueTerminator}, []*faState{failState})
 		u[utf8Byte] = &faState{table: lastTable}
 	}
-- 
2.43.0


From c93a942b0e15580860dc7e94a64597db7f47f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 36/51] fix: reject an empty object in a pattern's array
 instead of panicking

---
 pattern.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index 4bd441f..6bb567d 100644
--- a/pattern.go
+++ b/pattern.go
@@ -199,8 +199,12 @@ func readSpecialPattern(pb *patternBuild, valsIn []typedVal) (pathVals []typedVa
 		return
 	}
 
-	// tokenizer will throw an error if it's not a string
-	tt := t.(string)
+	// tokenizer will throw an error if it's neither a string nor the } of an empty object
+	tt, ok := t.(string)
+	if !ok {
+		err = errors.New("empty object in pattern array")
+		return
+	}
 	switch tt {
 	case "anything-but":
 		containsExclusive = tt
-- 
2.43.0


From a068a6dfe31dff749fbf2c763b26b48bb7b7d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 37/51] fix: reject a regexp that ends inside a range
 quantifier

---
 regexp_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/regexp_reader.go b/regexp_reader.go
index 14b7816..c9e8244 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -642,12 +642,18 @@ func readRangeQuantifier(parse *regexpParse, qa *quantifiedAtom) error {
 	// after {
 	var loDigits []rune
 	b, err := parse.nextRune()
+	if errors.Is(err, errRegexpEOF) {
+		return fmt.Errorf("incomplete range quantifier at %d", parse.lastOffset())
+	}
 	if err != nil {
 		return err
 	}
 	for b >= '0' && b <= '9' {
 		loDigits = append(loDigits, b)
 		b, err = parse.nextRune()
+		if errors.Is(err, errRegexpEOF) {
+			return fmt.Errorf("incomplete range quantifier at %d", parse.lastOffset())
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 02240fe85e8cf727b1225bb1519b38efc3b0ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 38/51] fix: reject a wildcard ending with '*\'

---
 wildcard.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildcard.go b/wildcard.go
index 73f5c84..991ea01 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -50,6 +50,9 @@ func readWildcardSpecial(pb *patternBuild, valsIn []typedVal) ([]typedVal, error
 			case '*':
 				return nil, fmt.Errorf("adjacent '*' characters not allowed")
 			case '\\':
+				if i == len(inBytes)-1 {
+					return nil, errors.New("'\\' at end of string not allowed")
+				}
 				state = wcAfterBS
 			default:
 				state = wcChilling
-- 
2.43.0


From c669224c7a7e8c3e37686a8d71bb8631a4cff7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 39/51] fix: reject an unescaped '}' in a regexp, which was
 taken for a '|'

---
 regexp_reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index c9e8244..2e235ad 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -188,7 +188,10 @@ func readBranches(parse *regexpParse) error {
 			return nil
 		}
 		var b rune
-		b, _ = parse.nextRune() // we already know we're not at EOF
+		b, err = parse.nextRune()
+		if errors.Is(err, errRegexpEOF) {
+			return nil
+		}
 		if b == '|' {
 			parse.features.recordFeature(rxfOrBar)
 			if parse.isEmpty() {
@@ -199,8 +202,9 @@ func readBranches(parse *regexpParse) error {
 		} else if b == ')' {
 			parse.backup1(b)
 			return nil
+		} else {
+			return fmt.Errorf("invalid character '%c' at %d", b, parse.lastOffset())
 		}
-		// no else, can't happen
 	}
 	return nil
 }
-- 
2.43.0


From d114d3b4775c4e6298a5f936dc7f9cbd203cd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 40/51] fix: reject a regexp that ends inside a property or a
 character class

---
 regexp_reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 2e235ad..e9e5b94 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -213,6 +213,9 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 	branch := regexpBranch{}
 	var err error
 	for err == nil {
+		if parse.isEmpty() {
+			return branch, nil
+		}
 		var piece *quantifiedAtom
 		piece, err = readPiece(parse)
 		if err == nil {
@@ -220,7 +223,7 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 		}
 	}
 	if errors.Is(err, errRegexpEOF) {
-		return branch, nil
+		return branch, fmt.Errorf("incomplete construct at %d", parse.lastOffset())
 	}
 	return branch, err
 }
-- 
2.43.0


From 9d08ae10ce42477cb632cd445c56f4e9f51bbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 41/51] fix: reject objects in an anything-but list

---
 anything_but.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anything_but.go b/anything_but.go
index 9818092..d0c37ee 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -35,6 +35,7 @@ func readAnythingButSpecial(pb *patternBuild, valsIn []typedVal) (pathVals []typ
 				done = true
 			} else {
 				err = fmt.Errorf("spurious %c in anything-but list", tt)
+				done = true
 			}
 		case string:
 			fieldCount++
-- 
2.43.0


From c2357fc9bc58c278e2fcd7625aff9f888a725e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 42/51] fix: don't read epsilon closures for the statistics
 while AddPattern writes them

---
 memory_cost.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memory_cost.go b/memory_cost.go
index 566a795..c2fcb89 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -9,6 +9,10 @@ var mcSmallTableBase = int64(unsafe.Sizeof(smallTable{})) // should include 3* s
 var mcFaStateBase = int64(unsafe.Sizeof(faState{}))
 
 func (m *coreMatcher) getStats() *matcherStats {
+	// addPattern may be computing epsilon closures, which are also looked at here, of states that already exist
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	stats := &matcherStats{
 		seenStates: make(map[*faState]bool),
 	}
-- 
2.43.0


From 1dcf9d8380308d0b43c218f2abb917ddb7ecdfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 43/51] fix: keep all characters of a regexp class that ends
 with a hyphen

When the hyphen at the end was also in one of the class's ranges, the ranges
overlapped, and characters that follow them could be lost.
---
 regexp_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index e9e5b94..bdc59a7 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -385,7 +385,8 @@ func readCharClassExpr(parse *regexpParse) (RuneRange, error) {
 	}
 	trailingHyphen, _ := parse.bypassOptional('-') // already probed
 	if trailingHyphen {
-		rr = append(rr, RunePair{Lo: '-', Hi: '-'})
+		// it may be in one of the other ranges already
+		rr = simplifyRuneRange(append(rr, RunePair{Lo: '-', Hi: '-'}))
 	}
 	if err = parse.require(']'); err != nil {
 		return nil, err
-- 
2.43.0


From 42e825ea76c0b218d833f08eef068a5654318ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 44/51] fix: don't take a step again for each way of arriving
 there

If several fields of a Pattern have many values in an Event, because they
are in arrays, the number of combinations that were tried was the product of
the numbers of matching values: with four fields of 50 each, a match took two seconds.
---
 core_matcher.go |  6 +++++-
 nfa.go          | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/core_matcher.go b/core_matcher.go
index de87a5e..911102d 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -191,6 +191,7 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	// Reuse the matchSet from buffers to reduce allocations
 	matches := bufs.getMatches()
 	matches.reset()
+	bufs.resetArrivals()
 	// Reset transmap depth for this match operation
 	if tm := bufs.transmap; tm != nil {
 		tm.resetDepth()
@@ -216,7 +217,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 
 	// transition on exists:true?
 	existsTrans, ok := stateFields.existsTrue[string(fields[index].Path)]
-	if ok {
+	if ok && bufs.isFirstArrival(existsTrans, fields, index) {
 		existsTransFields := existsTrans.fields()
 		matches = matches.addXSingleThreaded(existsTransFields.matches...)
 		for nextIndex := index + 1; nextIndex < len(fields); nextIndex++ {
@@ -238,6 +239,9 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 
 	// for each state in the possibly-empty list of transitions from this state on fields[index]
 	for _, nextState := range nextStates {
+		if !bufs.isFirstArrival(nextState, fields, index) {
+			continue
+		}
 		nextStateFields := nextState.fields()
 		matches = matches.addXSingleThreaded(nextStateFields.matches...)
 
diff --git a/nfa.go b/nfa.go
index 1f8551c..93e8eb9 100644
--- a/nfa.go
+++ b/nfa.go
@@ -111,10 +111,17 @@ type nfaBuffers struct {
 	transmap   *transmap
 	fieldSet   map[*fieldMatcher]bool
 	qNumBuf    [MaxBytesInEncoding]byte
+	arrivals   map[arrival]bool
 	// segmentsTree is the one used to flatten the event being matched, nil if not known
 	segmentsTree *segmentsTree
 }
 
+// arrival says that a field, identified by its index, had a value that led to a state
+type arrival struct {
+	state *fieldMatcher
+	index int
+}
+
 func newNfaBuffers() *nfaBuffers {
 	return &nfaBuffers{}
 }
@@ -126,6 +133,33 @@ func (nb *nfaBuffers) wasFlattened(path string) bool {
 	return nb.segmentsTree == nil || nb.segmentsTree.containsPath(path)
 }
 
+// isFirstArrival reports whether the field at index hasn't led to the state before, during this match. What remains to
+// be done depends only on these two, but with fields that have several values each because they are in arrays, the number of
+// ways to arrive at a state is up to the product of the numbers of values.
+func (nb *nfaBuffers) isFirstArrival(state *fieldMatcher, fields []Field, index int) bool {
+	if len(fields[index].ArrayTrail) == 0 {
+		return true
+	}
+	key := arrival{state: state, index: index}
+	if nb.arrivals[key] {
+		return false
+	}
+	if nb.arrivals == nil {
+		nb.arrivals = make(map[arrival]bool)
+	}
+	nb.arrivals[key] = true
+	return true
+}
+
+// resetArrivals is called before each match. The cost of clearing a map depends on how large it has been.
+func (nb *nfaBuffers) resetArrivals() {
+	if len(nb.arrivals) > 1000 {
+		nb.arrivals = nil
+	} else {
+		clear(nb.arrivals)
+	}
+}
+
 func (nb *nfaBuffers) getBuf1() []*faState {
 	if nb.buf1 == nil {
 		nb.buf1 = make([]*faState, 0, 16)
-- 
2.43.0


From 316526fe976cc1b8c1d299e60343fdf260d1d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 45/51] fix: refuse events with too deeply nested arrays rather
 than crash

Reading an array is recursive, so that an event of a few megabytes of [ exhausted the goroutine's stack, which ends the process.
---
 flatten_json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 5d3cb1e..264410a 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -45,6 +45,10 @@ var (
 	nullBytes  = []byte("null")
 )
 
+// maxArrayNesting limits the recursion in readArray, because exhausting the goroutine's stack would be fatal. It's the limit
+// that encoding/json, and therefore a Pattern, has too.
+const maxArrayNesting = 10_000
+
 // errEarlyStop is used to signal the case when we've detected that we've read all the fields that appear in any pattern
 // and so that we don't need to read any more
 var errEarlyStop = errors.New("earlyStop")
@@ -355,6 +359,9 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 	}
 	// these maintain the arraytrail state
 	if fj.skipping == 0 {
+		if len(fj.arrayTrail) >= maxArrayNesting {
+			return fj.error("arrays nested too deeply")
+		}
 		fj.enterArray()
 		defer fj.leaveArray()
 	}
-- 
2.43.0


From fb6e094bbfba727bea8eece986a8acf277bf29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 46/51] fix: refuse regexps with too deeply nested parentheses
 rather than crash

A regexp of two million ( exhausted the goroutine's stack.
---
 regexp_reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regexp_reader.go b/regexp_reader.go
index bdc59a7..62cb9fe 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -167,6 +167,10 @@ Symbols = %s"S" [ ( %s"c" / %s"k" / %s"m" / %s"o" ) ]
 Others = %s"C" [ ( %s"c" / %s"f" / %s"n" / %s"o" ) ]
 */
 
+// maxRegexpNesting limits the recursion in parsing a regexp and in building its automaton, because exhausting the
+// goroutine's stack would be fatal
+const maxRegexpNesting = 10_000
+
 // recursive-descent starts here
 func readRegexp(re string) (*regexpParse, error) {
 	return readRegexpWithParse(newRxParseState([]byte(re)))
@@ -301,6 +305,9 @@ func readAtom(parse *regexpParse) (*quantifiedAtom, error) {
 		qa.quantMin, qa.quantMax = 1, 1
 		return &qa, nil
 	case b == '(':
+		if len(parse.nesting) >= maxRegexpNesting {
+			return nil, fmt.Errorf("parentheses nested too deeply at %d", parse.lastOffset())
+		}
 		parse.nest()
 		parse.features.recordFeature(rxfParenGroup)
 		err = readBranches(parse)
-- 
2.43.0


From b6d5e9ebfa26587cfea38e25be5fb397aa169bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 47/51] fix: count what follows single values and exists in the
 statistics

States that can be reached only by way of a field with a single value, or an exists,
were left out, so that the statistics said nothing of the size of most matchers.
---
 matcher.go     |  1 +
 memory_cost.go | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/matcher.go b/matcher.go
index ac367eb..fb097ab 100644
--- a/matcher.go
+++ b/matcher.go
@@ -14,4 +14,5 @@ type matcherStats struct {
 	fanouts    int64
 	maxFanout  int64
 	seenStates map[*faState]bool
+	seenFields map[*fieldMatcher]bool
 }
diff --git a/memory_cost.go b/memory_cost.go
index c2fcb89..a1adb56 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -21,17 +21,29 @@ func (m *coreMatcher) getStats() *matcherStats {
 }
 
 func cmFieldMatcherStats(fm *fieldMatcher, stats *matcherStats, pp printer) {
-	fmTrans := fm.fields().transitions
-	for _, vm := range fmTrans {
-		singleton := vm.fields().singletonMatch
-		if singleton != nil {
-			stats.bytes += int64(cap(singleton))
+	if stats.seenFields[fm] {
+		return
+	}
+	if stats.seenFields == nil {
+		stats.seenFields = make(map[*fieldMatcher]bool)
+	}
+	stats.seenFields[fm] = true
+	fields := fm.fields()
+	for _, vm := range fields.transitions {
+		vmFields := vm.fields()
+		if vmFields.singletonMatch != nil {
+			stats.bytes += int64(cap(vmFields.singletonMatch))
+			cmFieldMatcherStats(vmFields.singletonTransition, stats, pp)
 		}
-		start := vm.fields().start
-		if start == nil {
-			continue
+		if vmFields.start != nil {
+			cmStateStats(vmFields.start, stats, pp)
 		}
-		cmStateStats(start, stats, pp)
+	}
+	for _, trans := range fields.existsTrue {
+		cmFieldMatcherStats(trans, stats, pp)
+	}
+	for _, trans := range fields.existsFalse {
+		cmFieldMatcherStats(trans, stats, pp)
 	}
 }
 
-- 
2.43.0


From 8beb09be02929549d23d7768be72140d516a4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 48/51] fix: share what follows the values of a field rather
 than multiply states

---
 core_matcher.go  | 14 ++++++++++++++
 field_matcher.go |  6 ++++++
 matcher.go       |  2 +-
 memory_cost.go   |  8 ++++----
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 911102d..1a5f559 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -106,6 +106,17 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	for _, field := range patternFields {
 		var nextStates []*fieldMatcher
 
+		// a field with several values leads to several states, those of them that are new don't differ in what
+		// follows. If it weren't shared, the number of states would be the product of the numbers of values.
+		var newStates []*fieldMatcher
+		states = slices.DeleteFunc(states, func(state *fieldMatcher) bool {
+			if !state.isNew() {
+				return false
+			}
+			newStates = append(newStates, state)
+			return len(newStates) > 1
+		})
+
 		// separate handling for field exists:true/false and regular field name/val matches. Since the exists
 		// true/false are only allowed one value, we can test vals[0] to figure out which type
 		for _, state := range states {
@@ -120,6 +131,9 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 			}
 			nextStates = append(nextStates, ns...)
 		}
+		for i := 1; i < len(newStates); i++ {
+			newStates[i].update(newStates[0].fields())
+		}
 		states = nextStates
 	}
 
diff --git a/field_matcher.go b/field_matcher.go
index 1911a0e..9ebc8f1 100644
--- a/field_matcher.go
+++ b/field_matcher.go
@@ -60,6 +60,12 @@ func newFieldMatcher() *fieldMatcher {
 	return fm
 }
 
+// isNew reports whether nothing has been added to the state yet
+func (m *fieldMatcher) isNew() bool {
+	fields := m.fields()
+	return len(fields.transitions) == 0 && len(fields.matches) == 0 && len(fields.existsTrue) == 0 && len(fields.existsFalse) == 0
+}
+
 func (m *fieldMatcher) addExists(exists bool, field *patternField) []*fieldMatcher {
 	var trans *fieldMatcher
 	current := m.fields()
diff --git a/matcher.go b/matcher.go
index fb097ab..61e146b 100644
--- a/matcher.go
+++ b/matcher.go
@@ -14,5 +14,5 @@ type matcherStats struct {
 	fanouts    int64
 	maxFanout  int64
 	seenStates map[*faState]bool
-	seenFields map[*fieldMatcher]bool
+	seenFields map[*fmFields]bool
 }
diff --git a/memory_cost.go b/memory_cost.go
index a1adb56..4dc6c3c 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -21,14 +21,14 @@ func (m *coreMatcher) getStats() *matcherStats {
 }
 
 func cmFieldMatcherStats(fm *fieldMatcher, stats *matcherStats, pp printer) {
-	if stats.seenFields[fm] {
+	fields := fm.fields()
+	if stats.seenFields[fields] {
 		return
 	}
 	if stats.seenFields == nil {
-		stats.seenFields = make(map[*fieldMatcher]bool)
+		stats.seenFields = make(map[*fmFields]bool)
 	}
-	stats.seenFields[fm] = true
-	fields := fm.fields()
+	stats.seenFields[fields] = true
 	for _, vm := range fields.transitions {
 		vmFields := vm.fields()
 		if vmFields.singletonMatch != nil {
-- 
2.43.0


From 33e9ac28204676104198d6947a1a45063d73af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 49/51] fix: don't take the steps again that follow several
 values of a field

---
 core_matcher.go  | 15 +++++++++++----
 field_matcher.go |  2 ++
 nfa.go           |  8 ++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 1a5f559..2f54c57 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -131,8 +131,12 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 			}
 			nextStates = append(nextStates, ns...)
 		}
-		for i := 1; i < len(newStates); i++ {
-			newStates[i].update(newStates[0].fields())
+		if len(newStates) > 1 {
+			shared := *newStates[0].fields()
+			shared.isShared = true
+			for _, state := range newStates {
+				state.update(&shared)
+			}
 		}
 		states = nextStates
 	}
@@ -231,7 +235,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 
 	// transition on exists:true?
 	existsTrans, ok := stateFields.existsTrue[string(fields[index].Path)]
-	if ok && bufs.isFirstArrival(existsTrans, fields, index) {
+	if ok && bufs.isFirstArrival(stateFields, existsTrans, fields, index) {
 		existsTransFields := existsTrans.fields()
 		matches = matches.addXSingleThreaded(existsTransFields.matches...)
 		for nextIndex := index + 1; nextIndex < len(fields); nextIndex++ {
@@ -253,7 +257,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 
 	// for each state in the possibly-empty list of transitions from this state on fields[index]
 	for _, nextState := range nextStates {
-		if !bufs.isFirstArrival(nextState, fields, index) {
+		if !bufs.isFirstArrival(stateFields, nextState, fields, index) {
 			continue
 		}
 		nextStateFields := nextState.fields()
@@ -292,6 +296,9 @@ func checkExistsFalse(stateFields *fmFields, fields []Field, index int, matches
 			}
 		}
 		if i == len(fields) && bufs.wasFlattened(existsFalsePath) {
+			if stateFields.isShared && !bufs.isFirstArrival(stateFields, existsFalseTrans, fields, index) {
+				continue
+			}
 			matches = matches.addXSingleThreaded(existsFalseTrans.fields().matches...)
 			if thisFieldIsAnExistsFalse {
 				tryToMatch(fields, index+1, existsFalseTrans, matches, bufs)
diff --git a/field_matcher.go b/field_matcher.go
index 9ebc8f1..528ecf6 100644
--- a/field_matcher.go
+++ b/field_matcher.go
@@ -18,11 +18,13 @@ type fieldMatcher struct {
 // fieldMatcher.
 // matches contains the X values that arrival at this state implies have matched.
 // existsTrue and existsFalse record those types of patterns; traversal doesn't require looking at a valueMatcher
+// isShared means that other states have the same ones, because these are what follows several values of a field.
 type fmFields struct {
 	transitions map[string]*valueMatcher
 	matches     []X
 	existsTrue  map[string]*fieldMatcher
 	existsFalse map[string]*fieldMatcher
+	isShared    bool
 }
 
 // fields / update / addExistsFalseFailure / addMatch exist to insulate callers from dealing with
diff --git a/nfa.go b/nfa.go
index 93e8eb9..d24b7e9 100644
--- a/nfa.go
+++ b/nfa.go
@@ -134,10 +134,10 @@ func (nb *nfaBuffers) wasFlattened(path string) bool {
 }
 
 // isFirstArrival reports whether the field at index hasn't led to the state before, during this match. What remains to
-// be done depends only on these two, but with fields that have several values each because they are in arrays, the number of
-// ways to arrive at a state is up to the product of the numbers of values.
-func (nb *nfaBuffers) isFirstArrival(state *fieldMatcher, fields []Field, index int) bool {
-	if len(fields[index].ArrayTrail) == 0 {
+// be done depends only on these two, but the number of ways to arrive at a state is up to the product of the numbers of values
+// of fields that have several values each: in the event, because they are in arrays, or in the pattern, and from is shared then.
+func (nb *nfaBuffers) isFirstArrival(from *fmFields, state *fieldMatcher, fields []Field, index int) bool {
+	if len(fields[index].ArrayTrail) == 0 && !from.isShared {
 		return true
 	}
 	key := arrival{state: state, index: index}
-- 
2.43.0


From 09eafb1d7d21b9f18b78d5555515dccf4c82f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 50/51] fix: rebuild the matcher also if nothing but deleted
 patterns is matched

---
 pruner.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/pruner.go b/pruner.go
index a1ed24c..fe069c0 100644
--- a/pruner.go
+++ b/pruner.go
@@ -138,22 +138,11 @@ func (t *tooMuchFiltering) rebuild(added bool, s *prunerStats) bool {
 		return false
 	}
 
-	// We won't rebuildWhileLocked if nothing's been emitted yet.
-	//
-	// In isolation, this heuristic is arguable, but for this
-	// policy we need it. Otherwise, we'll divide by zero, and
-	// nobody wants that.
-	if s.Emitted == 0 {
-		return false
-	}
-
-	var (
-		numerator   = float64(s.Filtered)
-		denominator = float64(s.Emitted)
-		ratio       = numerator / denominator
-	)
-
-	return t.FilteredToEmitted < ratio
+	// This is Filtered/Emitted > FilteredToEmitted, but without
+	// dividing by zero, and nobody wants that, if nothing's been
+	// emitted yet: when all that is found has been removed, it's
+	// about time to rebuildWhileLocked.
+	return float64(s.Filtered) > t.FilteredToEmitted*float64(s.Emitted)
 }
 
 // disableRebuild will prevent any automatic rebuilds.
-- 
2.43.0


From 25451077c2ff5994a15a8bd0e2a7f8b7439af50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 51/51] fix: decide on a rebuild from the matches since the
 last one

---
 pruner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pruner.go b/pruner.go
index fe069c0..14f37be 100644
--- a/pruner.go
+++ b/pruner.go
@@ -384,6 +384,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Live = count
 		m.stats.Added = 0
 		m.stats.Deleted = 0
+		m.stats.Emitted = 0
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
-- 
2.43.0

