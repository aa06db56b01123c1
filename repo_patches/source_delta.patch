From 2cd78239dd7063872a02a14b0406d51c8ae308d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 01/47] fix: position lookup of a char in the first line after
 a newline was read

---
 charstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/charstream.go b/charstream.go
index c92c025..1e5dc06 100644
--- a/charstream.go
+++ b/charstream.go
@@ -115,6 +115,11 @@ func (inst *positionMap) lookup(idx int) *Position {
 		}
 	}
 
+	if idx < inst.lines[0] {
+		// idx is before the newline that ends the 1st line
+		return &Position{Line: 1, Col: idx + 1}
+	}
+
 	// now the idx is garrenttee >= the lineIdx
 	// we found a line
 	//if lineIdx == 0 {
-- 
2.43.0


From 0af7f6efa8352e430122b1b741c0dce2449c0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 02/47] fix: data races in the Position() method of the char
 streams

---
 charstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index 1e5dc06..98a8884 100644
--- a/charstream.go
+++ b/charstream.go
@@ -292,8 +292,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // the position map is updated below
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -511,6 +511,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From 79052d2629100a41d2410b73dfae1ab6a2a20eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 03/47] fix: lookahead chars duplicated or lost in concatenate
 and repetition rules

---
 rule_concatenate.go | 7 +++----
 rule_repetition.go  | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..d9c7763 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -36,8 +36,9 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		NonData:   inst.nondata,
 	}
 	cs := charstream
+	var charsReturned []rune // chars the last result read from cs but didn't use, the rest of the unused chars are still in cs
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(cs, charsReturned)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -56,10 +57,8 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
+		charsReturned = result.CharsUnused
 
 		if !result.Sticky {
 			evalResult.Sticky = false
diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..107a46b 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -46,8 +46,9 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	cs := charstream
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
+	var charsReturned []rune // chars the last result read from cs but didn't use, the rest of the unused chars are still in cs
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(cs, charsReturned)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -69,10 +70,8 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
+		charsReturned = result.CharsUnused
 
 		if !result.Sticky {
 			evalResult.Sticky = false //change to false if any of the child result is non-sticky
-- 
2.43.0


From 4684c71b0c579d95b2d31194c30bd086f8d1ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 04/47] fix: chars lost by EvalRaw when the root rules read
 ahead different numbers of chars

---
 grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index c39d380..777c424 100644
--- a/grammar.go
+++ b/grammar.go
@@ -339,7 +339,7 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		resultsError := make(map[string]*EvalResult)
 		var maxCharsRead []rune
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs := newCharstreamPrepend(cs, maxCharsRead) // each root rule sees the same stream
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,6 +394,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		// the chars read ahead in earlier rounds and not read in this round are unused too
+		for cs.Cursor() < charstream.Cursor() {
+			charsUnused = append(charsUnused[:len(charsUnused):len(charsUnused)], cs.Next())
+		}
 		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
-- 
2.43.0


From 26c75256e73e5d9b49099482a160af02daa2abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 05/47] fix: ambiguity reported for matches shorter than the
 most greedy one

---
 grammar.go     | 7 ++++++-
 rule.go        | 7 ++++++-
 rule_choice.go | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 777c424..4b4402f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -372,7 +372,12 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[result.countCharsUsed():]
 		default: // we found more than 1 matches, the most greedy one wins
-			maxCountCharsUsed := 0
+			maxCountCharsUsed := 0 // only matches of this length, the most greedy ones, can be ambiguous
+			for _, result := range resultsMatched {
+				if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxCountCharsUsed {
+					maxCountCharsUsed = countCharsUsed
+				}
+			}
 			var maxResult *EvalResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
diff --git a/rule.go b/rule.go
index 6a413d8..1440cd5 100644
--- a/rule.go
+++ b/rule.go
@@ -296,7 +296,12 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else if matches == 1 {
 		resultFound = resultsMatched[0]
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-		maxUsed := 0
+		maxUsed := 0 // only matches of this length, the most greedy ones, can be ambiguous
+		for _, result := range resultsMatched {
+			if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxUsed {
+				maxUsed = countCharsUsed
+			}
+		}
 		var maxResult *EvalResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..8f83c62 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -78,7 +78,12 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			resultFound = resultsMatched[0]
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-			maxUsed := 0
+			maxUsed := 0 // only matches of this length, the most greedy ones, can be ambiguous
+			for _, result := range resultsMatched {
+				if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxUsed {
+					maxUsed = countCharsUsed
+				}
+			}
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed < maxUsed {
-- 
2.43.0


From 87180bf02def5ef39a85d70672c0ae2ec44ab2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 06/47] fix: chars swallowed by an ambiguous choice

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index 8f83c62..6f25b1c 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -104,6 +104,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
 					evalResult.Error = errors.New(buf.String())
+					evalResult.CharsUnused = evalResult.CharsRead // not a match, no char is used
 					return evalResult
 				}
 				maxUsed = countCharsUsed
-- 
2.43.0


From 8257e12d22e48b94598a08a2699f0233ddbd65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 07/47] fix: CharsRead and CharsUnused of a block don't add up
 to the chars read

---
 rule_block.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..8b97797 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -97,7 +97,6 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
-	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
@@ -144,8 +143,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, charsReadAhead(charstream, cs, resultExclude.CharsRead)...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
@@ -162,12 +160,14 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				content.Chars = append(content.Chars, result.charsUsed()...)
 				continue
 			}
-			closeResult = result
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
+			if inst.virtualClose {
+				charsUnused = result.CharsRead // the close chars will be reused
+			} else {
+				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
+			}
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
@@ -175,31 +175,40 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		cs = newCharstreamPrepend(cs, charsUnused)
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
+			charsUnused = nil
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
 		}
 		char = cs.Next()
+		charsUsed = append(charsUsed, char)
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
 		charsUnused = nil
 	}
+	charsUnused = charsReadAhead(charstream, cs, charsUnused)
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = charsUnused
 		evalResult.Node = node
 	}
 
 	return evalResult
 }
 
+// charsReadAhead returns all chars which have been read from the base stream but aren't used: the chars
+// just returned by an evaluation on cs, and those (read by previous evaluations) still left in cs.
+func charsReadAhead(base ICharstream, cs ICharstream, charsReturned []rune) []rune {
+	var chars []rune
+	cs = newCharstreamPrepend(cs, charsReturned)
+	for cs.Cursor() < base.Cursor() {
+		chars = append(chars, cs.Next())
+	}
+	return chars
+}
+
 // This function expects '<' as the 1st char in the input charstream.
 func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule, error) {
 	block := &BlockRule{}
-- 
2.43.0


From 51fa9c880505f0fe292758a78675e2ed5863f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 08/47] fix: block never ends when its escape rule matches an
 empty text

---
 rule_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index 8b97797..5193269 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -104,7 +104,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // an empty match escapes nothing
 				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 				charsUnused = result.CharsUnused
 				escaped = true
-- 
2.43.0


From 3e34577fae548a0d02c178ef082e09f167578e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 09/47] fix: excluded text that matches 2 exclude rules of a
 block is not excluded, and chars of it are lost

---
 rule.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/rule.go b/rule.go
index 1440cd5..6622199 100644
--- a/rule.go
+++ b/rule.go
@@ -296,7 +296,7 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else if matches == 1 {
 		resultFound = resultsMatched[0]
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-		maxUsed := 0 // only matches of this length, the most greedy ones, can be ambiguous
+		maxUsed := 0
 		for _, result := range resultsMatched {
 			if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxUsed {
 				maxUsed = countCharsUsed
@@ -308,14 +308,8 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 			if countCharsUsed < maxUsed {
 				continue
 			}
-			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
+			if maxResult != nil { // same chars matched by another rule, the 1st one wins
+				continue
 			}
 			maxUsed = countCharsUsed
 			maxResult = result
-- 
2.43.0


From 789f3f68b9608b08832d92aa31ed76632cf65d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 10/47] fix: no position on a block which has an empty open

---
 rule_block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index 5193269..d5f030e 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -97,13 +97,17 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
+	if node.Position == nil { // empty open, the block starts with its content
+		node.Position = content.Position
+	}
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
-			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
+			// do not skip space chars
+			result = inst.escape.Eval(grammar, cs, NOT_SKIP)
 			if result.Node != nil && result.countCharsUsed() > 0 { // an empty match escapes nothing
 				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 				charsUnused = result.CharsUnused
-- 
2.43.0


From 0ab5adfaebc4b241b41586272b657ae8e90f079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 11/47] fix: range rule matches a skipped white space beyond
 its end, and misses those before it

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From ab844e14a28535e4eb224bf6513ade1d11b51d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 12/47] fix: position of a range node is that of the previous
 char

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..5891918 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -46,6 +45,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				evalResult.Node = node
 				return evalResult
 			}
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From eea61cbb91aff1ca2582a62603ef53745276a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 13/47] fix: no position on group nodes

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 7e756f287f3b848e35eea10d17f2ae8f59865b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 14/47] fix: position of a chars node which starts with white
 spaces

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From 017cc8df60f657e1b3275f0b6ddae77e06518d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 15/47] fix: repetition of a rule which matches an empty text
 never ends

---
 rule_repetition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index 107a46b..ab112fd 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -93,6 +93,9 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
 			break
 		}
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) { // more empty matches won't make any difference
+			break
+		}
 	}
 
 	if len(nodes) < int(inst.min) {
-- 
2.43.0


From 8fb48888e356c4541851f5e76dd93e59c7d7a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 16/47] fix: EvalRaw never ends when a root rule matches an
 empty text

---
 grammar.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grammar.go b/grammar.go
index 4b4402f..1559423 100644
--- a/grammar.go
+++ b/grammar.go
@@ -370,6 +370,9 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			} else {
 				flagLeadingSpaces = SUGGEST_SKIP
 			}
+			if result.countCharsUsed() == 0 {
+				return nil, fmt.Errorf("must be %s: no char matched", inst.desc())
+			}
 			charsUnused = maxCharsRead[result.countCharsUsed():]
 		default: // we found more than 1 matches, the most greedy one wins
 			maxCountCharsUsed := 0 // only matches of this length, the most greedy ones, can be ambiguous
@@ -397,6 +400,9 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			} else {
 				flagLeadingSpaces = SUGGEST_SKIP
 			}
+			if maxCountCharsUsed == 0 {
+				return nil, fmt.Errorf("must be %s: no char matched", inst.desc())
+			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
 		// the chars read ahead in earlier rounds and not read in this round are unused too
-- 
2.43.0


From 910016bd55a24e961f13913762142ec66815527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 17/47] fix: EvalEmbed never ends when the rule matches an
 empty text

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 1559423..99462d0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From abd31814b89cd24c7ef24ee2a5a715f65147a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 18/47] fix: a root or terminal rule remains so after it's used
 by a rule added later

---
 grammar.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grammar.go b/grammar.go
index 99462d0..d7f5f10 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,8 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 0921c2393697c87480b13aeb2f08d5c30b9554d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 19/47] fix: a rule which fails to parse remains as user of the
 rules it references

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index d7f5f10..510d025 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsages(ruleName) // the rule isn't added, it doesn't use any rule
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// removeUsages takes back all usages added for the user rule
+func (inst *Grammar) removeUsages(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) == 0 {
+			delete(inst.nonRoots, ruleName)
+		} else {
+			inst.nonRoots[ruleName] = others
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From ce9bad39a8afac757637a6c8d7ff3dd6caee9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 20/47] fix: rule definition string denotes another rule, or no
 rule, when parsed again

---
 rule_repetition.go      | 2 +-
 rule_terminal_chars.go  | 2 +-
 rule_terminal_range.go  | 8 +++++---
 rule_terminal_string.go | 3 ++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index ab112fd..15c765b 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -253,7 +253,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max))
 		}
 	} else {
 		if inst.max == 0 {
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 0bcaba8..e4da135 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -84,7 +84,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
 	if strings.ContainsRune(str, '\'') {
 		str = strings.ReplaceAll(str, "'", "\\'")
 	}
diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 5891918..827da10 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,19 +77,21 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
 		if inst.begin == '\'' {
 			beginStr = "'\\''"
+		} else if inst.begin == EscapeSymbol {
+			beginStr = "'\\\\'"
 		} else {
 			beginStr = "'" + string(inst.begin) + "'"
 		}
 	}
 	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
 		if inst.end == '\'' {
-			endStr = "'\\''"
+			endStr = "\\u0027" // only unicode escape is allowed in the end char
 		} else {
 			endStr = "'" + string(inst.end) + "'"
 		}
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..03e0836 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -83,7 +83,8 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
+	str = strings.ReplaceAll(str, "\"", "\\\"")
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From c895c5684e991cb1981c4c978b35d22295a1585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 21/47] fix: tokenized node merged with its sticky siblings

---
 node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 6ecb557..806e134 100644
--- a/node.go
+++ b/node.go
@@ -155,11 +155,14 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 		if node.Sticky {
 			// the node is sticky node that can be merged to previous sticky node if there is one
 			nodeText := node.Text()
-			if prevNode != nil && prevNode.Sticky {
+			if prevNode != nil && prevNode.Sticky && !prevNode.Tokenized && !node.Tokenized {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				continue
 			}
+			if prevNode != nil {
+				prevNode.Sticky = false
+			}
 			// all children of a sticky node can be drop, we only need to keep the text
 			node.Chars = nodeText
 			node.ChildNodes = nil
-- 
2.43.0


From a6629915172c84ccdc5381082bbff18351a7a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 22/47] fix: text merged into a virtual or non-data sibling is
 removed along with it

---
 node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 806e134..5d0d7d6 100644
--- a/node.go
+++ b/node.go
@@ -155,7 +155,8 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 		if node.Sticky {
 			// the node is sticky node that can be merged to previous sticky node if there is one
 			nodeText := node.Text()
-			if prevNode != nil && prevNode.Sticky && !prevNode.Tokenized && !node.Tokenized {
+			if prevNode != nil && prevNode.Sticky && !prevNode.Tokenized && !node.Tokenized &&
+				(node.Virtual || !prevNode.Virtual) && (node.NonData || !prevNode.NonData) { // or node's text would be removed along with prevNode
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				continue
-- 
2.43.0


From 41670805aebea58c1fea2421db34029853243b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 23/47] fix: command line option -rule doesn't work without
 -xbnf

---
 main/xbnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..8972462 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,7 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	} else if *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From c8f4277745ebdc73dbb3e61031663cf72a8ce3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 24/47] fix: no position on a node with text merged into its
 empty sibling

---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index 5d0d7d6..4177a2c 100644
--- a/node.go
+++ b/node.go
@@ -159,6 +159,9 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 				(node.Virtual || !prevNode.Virtual) && (node.NonData || !prevNode.NonData) { // or node's text would be removed along with prevNode
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
+				if prevNode.Position == nil { // it had no text
+					prevNode.Position = node.Position
+				}
 				continue
 			}
 			if prevNode != nil {
-- 
2.43.0


From dba9e07174328729455cf1f04583aefaf8e2c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 25/47] fix: command line prints virtual and non-data nodes
 when they have child nodes

---
 main/xbnf.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 8972462..42d1652 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -71,14 +71,11 @@ func main() {
 	for _, text := range texts {
 		fmt.Printf("\nParsing text: %s\n", text)
 		cs := xbnf.NewCharstreamFromString(text)
-		ast, err := grammar.Eval(cs, xbnf.LevelBasic)
+		ast, err := grammar.Eval(cs, xbnf.LevelDataOnly)
 		if err != nil {
 			fmt.Printf("ERROR: %s", err)
 			return
 		}
-		ast.RemoveVirtualNodes()
-		ast.RemoveNonDataNodes()
-		ast.RemoveRedundantNodes()
 		fmt.Printf("%s\n", ast.StringTree(treeConf))
 	}
 
@@ -90,15 +87,11 @@ func main() {
 			return
 		}
 		cs := xbnf.NewCharstreamFromString(string(text))
-		ast, err := grammar.Eval(cs, xbnf.LevelBasic)
+		ast, err := grammar.Eval(cs, xbnf.LevelDataOnly)
 		if err != nil {
 			fmt.Printf("ERROR: %s", err)
 			return
 		}
-		ast.RemoveVirtualNodes()
-		ast.MergeStickyNodes()
-		ast.RemoveNonDataNodes()
-		ast.RemoveRedundantNodes()
 		fmt.Printf("%s\n", ast.StringTree(treeConf))
 	}
 }
-- 
2.43.0


From 1eefbab51ee801f55c7b86d50b13d2edc2b0177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 26/47] fix: position lookup of the 1st char gives a position
 before it is read

---
 charstream.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/charstream.go b/charstream.go
index 98a8884..d52ddee 100644
--- a/charstream.go
+++ b/charstream.go
@@ -315,14 +315,14 @@ func (inst *CharstreamString) PositionLookup(idx int) *Position {
 	inst.lock.RLock()
 	defer inst.lock.RUnlock()
 
-	if idx == 0 {
-		return &Position{Line: 1, Col: 1}
-	}
-
 	if idx >= inst.cursor || idx >= len(inst.chars) {
 		return nil
 	}
 
+	if idx == 0 {
+		return &Position{Line: 1, Col: 1}
+	}
+
 	return inst.positionMap.lookup(idx)
 }
 
-- 
2.43.0


From c44768aa1d6ea4e15ba6617d1ce223267acbcea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 27/47] fix: chars lost in a block after an escaped close or
 exclude text

---
 rule_block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rule_block.go b/rule_block.go
index d5f030e..06d25a4 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -96,6 +96,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
+	charsUnused = nil
 	content.Position = cs.Position()
 	if node.Position == nil { // empty open, the block starts with its content
 		node.Position = content.Position
@@ -103,6 +104,8 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
+		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = nil
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
-- 
2.43.0


From 5b8e60588863e9cee6b6235cb75347563f6abeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 28/47] fix: chars read by an unmatched escape rule are
 repeated forever in a block without exclude rules

---
 rule_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_block.go b/rule_block.go
index 06d25a4..426d0e9 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -139,6 +139,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 
 		// find exclude match(es)
 		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = nil
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
 			if resultExclude.Node != nil { // found one
-- 
2.43.0


From 07b9d2531316c9ac505de3803c5cea81555df272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 29/47] fix: push-back streams stack up, evaluation time grows
 quadratically with the text

---
 charstream.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/charstream.go b/charstream.go
index d52ddee..b10e8b7 100644
--- a/charstream.go
+++ b/charstream.go
@@ -420,6 +420,15 @@ func (inst *CharstreamString) Match(input []rune) ([]rune, bool) {
 
 // The prepend MUST be chars read just before the cursor.
 func newCharstreamPrepend(baseCharstream ICharstream, prepend []rune) ICharstream {
+	// a prepend stream with all its prepended chars read only forwards to its base stream. Don't stack
+	// them up, or the cost of each operation grows with the # of chars read from the stream
+	for {
+		csp, ok := baseCharstream.(*CharstreamPrepend)
+		if !ok || !csp.exhausted() {
+			break
+		}
+		baseCharstream = csp.charstream
+	}
 	if len(prepend) == 0 {
 		return baseCharstream
 	}
@@ -441,6 +450,14 @@ type CharstreamPrepend struct {
 	lock       sync.RWMutex
 }
 
+// exhausted returns true if all the prepended chars have been read
+func (inst *CharstreamPrepend) exhausted() bool {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
+	return inst.cursor >= len(inst.prepend)
+}
+
 func (inst *CharstreamPrepend) Next() rune {
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
-- 
2.43.0


From a13b4786b3cfb4f49ccac47dd857a3f5c6c931fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 30/47] fix: no position on the free text nodes of an embedded
 evaluation

---
 grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 510d025..0ddc121 100644
--- a/grammar.go
+++ b/grammar.go
@@ -276,16 +276,21 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	node := &Node{RuleType: TypeEmbed, RuleName: ruleName}
 	evalResult.Node = node
 	cs := NewCharstreamFromString(sample)
+	node.Position = cs.Position()
 	var result *EvalResult
 	var text []rune
+	var textPosition *Position
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
 		if result.Node == nil || result.countCharsUsed() == 0 { // no match
+			if len(text) == 0 {
+				textPosition = cs.Position()
+			}
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-					textNode := &Node{RuleType: TypeText, RuleName: "_"}
+					textNode := &Node{RuleType: TypeText, RuleName: "_", Position: textPosition}
 					textNode.Chars = text
 					text = nil
 					node.ChildNodes = append(node.ChildNodes, textNode)
@@ -295,7 +300,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 			text = append(text, char)
 		} else { // find a match
 			if len(text) > 0 {
-				textNode := &Node{RuleType: TypeText, RuleName: "_"}
+				textNode := &Node{RuleType: TypeText, RuleName: "_", Position: textPosition}
 				textNode.Chars = text
 				text = nil
 				node.ChildNodes = append(node.ChildNodes, textNode)
-- 
2.43.0


From 8381afe873efbff73ea4a47ee8fcf38edb691128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 31/47] fix: error messages and serialized grammar depend on
 the map iteration order

---
 grammar.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/grammar.go b/grammar.go
index 0ddc121..a452bd0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -63,7 +63,7 @@ func (inst *Grammar) desc() string {
 	var buf strings.Builder
 	i := 0
 	total := len(inst.rootRules)
-	for _, record := range inst.rootRules {
+	for _, record := range inDefinitionOrder(inst.rootRules) {
 		if i > 0 {
 			if i == total-1 && total > 1 {
 				buf.WriteString(" or " + record.rule.desc())
@@ -78,6 +78,16 @@ func (inst *Grammar) desc() string {
 	return buf.String()
 }
 
+// inDefinitionOrder returns the records in the order their rules are defined
+func inDefinitionOrder(ruleRecords map[string]*RuleRecord) []*RuleRecord {
+	var records []*RuleRecord
+	for _, record := range ruleRecords {
+		records = append(records, record)
+	}
+	sort.Slice(records, func(i, j int) bool { return records[i].line < records[j].line })
+	return records
+}
+
 func (inst *Grammar) GetRecord(ruleName string) *RuleRecord {
 	//inst.lock.RLock()
 	//defer inst.lock.RUnlock()
@@ -191,7 +201,8 @@ func (inst *Grammar) StringRuleRelation(nameFmtStr string) string {
 	var bufUsage strings.Builder
 	bufRoot.WriteString("Root Rules: ")
 	bufUsage.WriteString("Rule Reference Map: \n")
-	for name := range inst.ruleRecords {
+	for _, record := range inDefinitionOrder(inst.ruleRecords) {
+		name := record.name
 		children, exists := inst.nonRoots[name]
 		if exists {
 			bufUsage.WriteString(fmt.Sprintf("    "+nameFmtStr+": ", name))
@@ -233,7 +244,13 @@ func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
 	nonTerminals := make(map[string]byte)
-	for name, children := range inst.nonRoots {
+	var names []string
+	for name := range inst.nonRoots {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		children := inst.nonRoots[name]
 		_, exists := inst.ruleRecords[name]
 		if !exists {
 			return fmt.Errorf("rule name '%s' referenced but not defined", name)
@@ -355,25 +372,26 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 	cs := charstream
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
+	rootRules := inDefinitionOrder(inst.rootRules)
 	for {
 		cs = newCharstreamPrepend(cs, charsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
-		resultsMatched := make(map[string]*EvalResult)
-		resultsError := make(map[string]*EvalResult)
+		var resultsMatched []*EvalResult
+		var resultsError []*EvalResult
 		var maxCharsRead []rune
-		for name, ruleRecord := range inst.rootRules {
+		for _, ruleRecord := range rootRules {
 			cs := newCharstreamPrepend(cs, maxCharsRead) // each root rule sees the same stream
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
 			}
 			if result.Node != nil {
-				resultsMatched[name] = result
+				resultsMatched = append(resultsMatched, result)
 			}
 			if result.Error != nil {
-				resultsError[name] = result
+				resultsError = append(resultsError, result)
 			}
 		}
 		matches := len(resultsMatched)
@@ -385,10 +403,7 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			return nil, fmt.Errorf("must be %s: %s", inst.desc(), buf.String())
 		case 1:
-			var result *EvalResult
-			for _, r := range resultsMatched {
-				result = r
-			}
+			result := resultsMatched[0]
 			ast.Nodes = append(ast.Nodes, result.Node)
 			if result.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 8155cd5394130d2a7d98b3930ca2e5ee5ae4ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 32/47] fix: white space other than a blank changes how a
 choice definition is grouped

---
 grammar.go     | 5 +++--
 rule_choice.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index a452bd0..99379ad 100644
--- a/grammar.go
+++ b/grammar.go
@@ -649,10 +649,11 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 	isTokenized := false
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ', '\n', '\t', '\r':
+		if IsWhiteSpace(char) {
 			cs.Next()
 			continue
+		}
+		switch char {
 		case EOFChar:
 			return nil, fmt.Errorf("EOF encountered, no more rule")
 		case VirtualSymbol, NonDataSymbol, TokenizedSymbol:
diff --git a/rule_choice.go b/rule_choice.go
index 6f25b1c..3d30429 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -135,10 +135,11 @@ func inChoice(grammar *Grammar, name string, firstRule IRule, cs ICharstream) (*
 EXIT:
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ': // ignore space
+		if IsWhiteSpace(char) { // ignore space
 			cs.Next()
 			continue
+		}
+		switch char {
 		case ChoiceSymbol:
 			cs.Next()
 			rule, err := grammar.parseOne(name, cs)
-- 
2.43.0


From 465f5727966a4ac1cfa6953f028850e097384dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 33/47] fix: an annotation symbol which annotates no rule is
 accepted, or annotates the whole choice it appears in

---
 grammar.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/grammar.go b/grammar.go
index 99379ad..88b75de 100644
--- a/grammar.go
+++ b/grammar.go
@@ -531,6 +531,9 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case ChoiceSymbol, ChoiceOrderSymbol: // '|' or '>'
+			if isVirtual || isNonData || isTokenized {
+				return nil, fmt.Errorf("annotation symbol can not appear before choice symbol '%c'", char)
+			}
 			size := len(rules)
 			switch size {
 			case 0:
@@ -540,10 +543,6 @@ EXIT:
 				if err != nil {
 					return nil, err
 				}
-				rule.setAnnotation(isTokenized, isNonData, isVirtual)
-				isTokenized = false
-				isNonData = false
-				isVirtual = false
 				rules[0] = rule
 			default:
 				// last rule will participate in the choice, and be replaced by the choice rule
@@ -551,10 +550,6 @@ EXIT:
 				if err != nil {
 					return nil, err
 				}
-				rule.setAnnotation(isTokenized, isNonData, isVirtual)
-				isTokenized = false
-				isNonData = false
-				isVirtual = false
 				rules[size-1] = rule
 			}
 		case OptionOpenSymbol: // '['
@@ -629,6 +624,9 @@ EXIT:
 			}
 		}
 	}
+	if isVirtual || isNonData || isTokenized {
+		return nil, fmt.Errorf("no rule found after annotation symbol")
+	}
 	switch len(rules) {
 	case 0:
 		return nil, fmt.Errorf("no rule found")
-- 
2.43.0


From 090fd7c1d9bb15a131db403deb2e30f6d8a29b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 34/47] fix: printed definition of a block whose part has
 several rules denotes another block

---
 rule_block.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 426d0e9..aaf269e 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -27,20 +27,20 @@ func (inst *BlockRule) String() string {
 	var buf strings.Builder
 	buf.WriteString(string(inst.annotation()))
 	buf.WriteRune(blockOpenSymbol)
-	buf.WriteString(inst.open.String())
+	buf.WriteString(blockPartString(inst.open))
 
 	if inst.escape != nil {
 		buf.WriteRune(' ')
-		buf.WriteString(inst.escape.String())
+		buf.WriteString(blockPartString(inst.escape))
 	}
 
 	for _, exclude := range inst.excludes {
 		buf.WriteString(" ^")
-		buf.WriteString(exclude.String())
+		buf.WriteString(blockPartString(exclude))
 	}
 
 	buf.WriteRune(' ')
-	buf.WriteString(inst.close.String())
+	buf.WriteString(blockPartString(inst.close))
 	if inst.virtualClose {
 		buf.WriteRune(' ')
 		buf.WriteRune(blockVirtualClose)
@@ -49,6 +49,36 @@ func (inst *BlockRule) String() string {
 	return buf.String()
 }
 
+// blockPartString returns the definition of a part of a block. Blanks separate the parts of a block, so
+// there must be no blank between the rules inside a part.
+func blockPartString(rule IRule) string {
+	var buf strings.Builder
+	switch part := rule.(type) {
+	case *ConcatenateRule:
+		for i, child := range part.rules {
+			if i > 0 {
+				buf.WriteRune('\t')
+			}
+			buf.WriteString(blockPartString(child))
+		}
+	case *ChoiceRule:
+		for i, group := range part.groups {
+			if i > 0 {
+				buf.WriteRune(ChoiceOrderSymbol)
+			}
+			for j, child := range group {
+				if j > 0 {
+					buf.WriteRune(ChoiceSymbol)
+				}
+				buf.WriteString(child.String())
+			}
+		}
+	default:
+		buf.WriteString(rule.String())
+	}
+	return buf.String()
+}
+
 func (inst *BlockRule) StringWithIndent(indent string) string {
 	return fmt.Sprintf("%s%s", indent, inst.String())
 }
-- 
2.43.0


From 4af14732417211574d0c8628d124204f97263841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 35/47] fix: newline in a literal makes the printed grammar
 unloadable

---
 rule_terminal_char.go   | 3 +++
 rule_terminal_chars.go  | 1 +
 rule_terminal_range.go  | 4 ++++
 rule_terminal_string.go | 1 +
 4 files changed, 9 insertions(+)

diff --git a/rule_terminal_char.go b/rule_terminal_char.go
index 9f182b7..b73d096 100644
--- a/rule_terminal_char.go
+++ b/rule_terminal_char.go
@@ -85,6 +85,9 @@ func (inst *TerminalCharRule) String() string {
 	if inst.text == '\'' {
 		return annotations + "'\\''"
 	}
+	if inst.text == '\n' {
+		return annotations + "'\\u000A'" // a rule must be defined in a single line
+	}
 	return annotations + "'" + string(inst.text) + "'"
 }
 
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index e4da135..7cc1890 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -88,6 +88,7 @@ func (inst *TerminalCharsRule) String() string {
 	if strings.ContainsRune(str, '\'') {
 		str = strings.ReplaceAll(str, "'", "\\'")
 	}
+	str = strings.ReplaceAll(str, "\n", "\\u000A") // a rule must be defined in a single line
 	return fmt.Sprintf("%s'%s'", annotations, str)
 }
 
diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 827da10..866e016 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -83,6 +83,8 @@ func (inst *TerminalRangeRule) String() string {
 			beginStr = "'\\''"
 		} else if inst.begin == EscapeSymbol {
 			beginStr = "'\\\\'"
+		} else if inst.begin == '\n' {
+			beginStr = "'\\u000A'" // a rule must be defined in a single line
 		} else {
 			beginStr = "'" + string(inst.begin) + "'"
 		}
@@ -92,6 +94,8 @@ func (inst *TerminalRangeRule) String() string {
 	} else {
 		if inst.end == '\'' {
 			endStr = "\\u0027" // only unicode escape is allowed in the end char
+		} else if inst.end == '\n' {
+			endStr = "'\\u000A'"
 		} else {
 			endStr = "'" + string(inst.end) + "'"
 		}
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 03e0836..e7fe60b 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -85,6 +85,7 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 func (inst *TerminalStringRule) String() string {
 	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
 	str = strings.ReplaceAll(str, "\"", "\\\"")
+	str = strings.ReplaceAll(str, "\n", "\\u000A") // a rule must be defined in a single line
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From 7609c6f49755c7f81a00ba6bfecc2043eef0fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 36/47] fix: position of a node which starts with an empty
 string

---
 rule_terminal_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index e7fe60b..8f15474 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -74,7 +74,9 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) > 0 { // an empty string has no position, the node it's part of starts with its first char
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From f3b9b069620b035e8e1e7a87821aab4b566ecd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 37/47] fix: command line goes on to parse texts with a grammar
 which fails validation

---
 main/xbnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main/xbnf.go b/main/xbnf.go
index 42d1652..e76be29 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -60,6 +60,7 @@ func main() {
 	err := grammar.Validate()
 	if err != nil {
 		fmt.Printf("ERROR: %s\n", err)
+		return
 	}
 	grammarStr := grammar.Serialize(false)
 	grammarStr = strings.ReplaceAll(grammarStr, "\n", "\n    ")
-- 
2.43.0


From 4e7672c7141da7dd4ee6bce7aebc331c2450be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 38/47] fix: repetition skips white space between sticky
 matches

Every iteration of a repetition got the white space flag of the repetition
itself, so { '0'-'9' } took "1 2" as one number of two digits and 'a' { 'b' "c" }
missed the second match of "abc bc". What is skipped before the next match
now depends on the last one, as in a concatenation.
---
 rule_repetition.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index 15c765b..4886a5a 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -88,6 +88,16 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			node.Position = result.Node.Position
 		}
 
+		// what may be skipped before the next match depends on this match, the same as in a concatenation
+		if result.Node.RuleType != TypeOption ||
+			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {
+			if result.Sticky {
+				flagLeadingSpaces = SUGGEST_NOT_SKIP
+			} else {
+				flagLeadingSpaces = SUGGEST_SKIP
+			}
+		}
+
 		// got another match
 		nodes = append(nodes, result.Node)
 		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
-- 
2.43.0


From ade8ac4a49060c9b7988c32cfac92e80c5f60b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 39/47] fix: named nodes without text are removed along with
 the unnamed node they are in

["",""] parsed by the JSON sample grammar and simplified lost its second
value, and [1,{}] its object: the unnamed nodes of { "," value } had no text
and were dropped, with the named nodes below them. A named node is kept where
no unnamed node is around it, so it is now kept there as well.
---
 node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 4177a2c..6e0f262 100644
--- a/node.go
+++ b/node.go
@@ -236,8 +236,9 @@ func (inst *Node) RemoveRedundantNodes() {
 	// if a child does not have ruleName, and it's not leaf node (ie, has child nodes), premote
 	// its children to this node's children. ie. grandchildren becomes children
 	for _, child := range inst.ChildNodes { // range over slice in golang is order guaranteed
-		// remove the child if it is empty and unnamed after virtual node removed
-		if len(child.Text()) == 0 && child.RuleName == "" {
+		// remove the child if it is empty and unnamed after virtual node removed, unless it has child nodes, which
+		// are named nodes or have named nodes under them
+		if len(child.Text()) == 0 && child.RuleName == "" && len(child.ChildNodes) == 0 {
 			continue
 		}
 
-- 
2.43.0


From cf5bbb36f3851a6bd6218e21910af43b2dcc2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 40/47] fix: white space is not skipped after a repetition
 which has no match

{ 'a' } 'b' did not match " b", while ['a'] 'b' and { 'a' }<1,> 'b' skip the
white space before their first char; the arithmetic sample grammar rejected
"1 + .5". A repetition without a match now leaves the white space handling as
it was, the same as an option (a repetition <0,1>) already does.
---
 rule_concatenate.go | 7 ++++---
 rule_repetition.go  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index d9c7763..4bd0d25 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -77,10 +77,11 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		}
 
 		// option node should be treated specially to decide whether or not next eval should skip leading spaces
-		// when option rule doesn't match, the hintSkipLeadingSpaces should remain the same
-		if result.Node.RuleType != TypeOption ||
+		// when option rule doesn't match, the hintSkipLeadingSpaces should remain the same, and so should it when
+		// a repetition has no match
+		if (result.Node.RuleType != TypeOption && result.Node.RuleType != TypeRepetition) ||
 			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {
-			// it's not an option node, or matched
+			// it's not an option or repetition node, or matched
 			if result.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
 			} else {
diff --git a/rule_repetition.go b/rule_repetition.go
index 4886a5a..4894276 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -89,7 +89,7 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		}
 
 		// what may be skipped before the next match depends on this match, the same as in a concatenation
-		if result.Node.RuleType != TypeOption ||
+		if (result.Node.RuleType != TypeOption && result.Node.RuleType != TypeRepetition) ||
 			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {
 			if result.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 734cc9db3078dbde306bbed1d9f89e670efb88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 41/47] fix: error of a choice which fails at the first
 character names no reason

---
 rule_choice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index 3d30429..6dc701f 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -64,7 +64,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			if result.Node != nil {
 				resultsMatched = append(resultsMatched, result)
 			} else {
-				if result.ErrIdx > maxErrCursor {
+				if maxErr == nil || result.ErrIdx > maxErrCursor {
 					maxErrCursor = result.ErrIdx
 					maxErr = result.Error
 				}
-- 
2.43.0


From a3665ae437aef45ca3654c73c27c44ec28f70bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 42/47] fix: error of a range rule gives place L0:0 at the end
 of the text

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 866e016..7a41f00 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -37,6 +37,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Sticky:    true,
 	}
 
+	errPos := charstream.Position() // there is no position at EOF, which skipping may reach
 	if flagLeadingSpaces == SUGGEST_SKIP {
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
@@ -66,7 +67,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	}
 
 	evalResult.CharsUnused = evalResult.CharsRead
-	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
+	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), errPos.String())
 	evalResult.ErrIdx = charstream.Cursor()
 	return evalResult
 }
-- 
2.43.0


From 4b8e71b7a8f1862c79f3efc6e3d20a5987817c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 43/47] fix: ambiguity error quotes chars which were only read
 ahead

---
 grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 88b75de..1e77e4c 100644
--- a/grammar.go
+++ b/grammar.go
@@ -426,8 +426,8 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
 					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
+						result.Node.RuleName, string(result.charsUsed()),
+						maxResult.Node.RuleName, string(maxResult.charsUsed()))
 				}
 				if countCharsUsed >= maxCountCharsUsed {
 					maxResult = result
-- 
2.43.0


From 6d5c06659f3c738c5860fa903577fd9f2c105bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 44/47] fix: detailed listing shows a block deeper than its
 siblings

---
 rule_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index aaf269e..8ae0114 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -80,7 +80,7 @@ func blockPartString(rule IRule) string {
 }
 
 func (inst *BlockRule) StringWithIndent(indent string) string {
-	return fmt.Sprintf("%s%s", indent, inst.String())
+	return inst.String()
 }
 
 // Eval extract quote text from the charstream. If the charstream starts with
-- 
2.43.0


From c3dd2b7ccd0af5bb0a4bb8d3a639c21605bb9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 45/47] fix: a string literal with an escape of half a
 surrogate pair denotes that half, not U+FFFD

---
 rule_terminal_string.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 8f15474..3e08062 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -96,7 +96,7 @@ func (inst *TerminalStringRule) StringWithIndent(indent string) string {
 }
 
 func inString(name string, cs ICharstream) (*TerminalStringRule, error) {
-	var buf strings.Builder
+	var buf []rune // not a string, which can not hold half of a surrogate pair
 	var definedUnicodes []rune
 	openChar := cs.Next()
 	if openChar != '"' {
@@ -123,9 +123,9 @@ func inString(name string, cs ICharstream) (*TerminalStringRule, error) {
 				char = cs.Next()
 			}
 		}
-		buf.WriteRune(char)
+		buf = append(buf, char)
 	}
 	rule := &TerminalStringRule{}
-	rule.text = []rune(buf.String())
+	rule.text = buf
 	return rule, nil
 }
-- 
2.43.0


From 0cb75d8e8e86d1d200241dd4f4c777a5c0b0b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 46/47] fix: a printed literal keeps the escapes of halves of
 surrogate pairs, which only an escape can spell

---
 rule.go                 | 18 ++++++++++++++++++
 rule_terminal_chars.go  |  7 +------
 rule_terminal_string.go |  5 +----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/rule.go b/rule.go
index 6622199..f72d947 100644
--- a/rule.go
+++ b/rule.go
@@ -269,6 +269,24 @@ func validateRuleName(ruleName string) (validRuleName string, err error) {
 	return
 }
 
+// quoteLiteral returns the text of a literal as it's written between the quotes of a rule definition
+func quoteLiteral(text []rune, quote rune) string {
+	var buf strings.Builder
+	for _, char := range text {
+		switch {
+		case char == quote || char == EscapeSymbol:
+			buf.WriteRune(EscapeSymbol)
+			buf.WriteRune(char)
+		case char == '\n', 0xD800 <= char && char <= 0xDFFF:
+			// a rule must be defined in a single line, and half of a surrogate pair can only be escaped
+			buf.WriteString(fmt.Sprintf("\\u%04X", char))
+		default:
+			buf.WriteRune(char)
+		}
+	}
+	return buf.String()
+}
+
 // Given a list of rules, find the most greedy match. If no rule matches, return a evalResult with
 // nil node.
 func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int, rules []IRule) *EvalResult {
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 7cc1890..efdfbb3 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalCharsRule struct {
@@ -84,11 +83,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
-	if strings.ContainsRune(str, '\'') {
-		str = strings.ReplaceAll(str, "'", "\\'")
-	}
-	str = strings.ReplaceAll(str, "\n", "\\u000A") // a rule must be defined in a single line
+	str := quoteLiteral(inst.text, CharsSymbol)
 	return fmt.Sprintf("%s'%s'", annotations, str)
 }
 
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 3e08062..490c072 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalStringRule struct {
@@ -85,9 +84,7 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
-	str = strings.ReplaceAll(str, "\"", "\\\"")
-	str = strings.ReplaceAll(str, "\n", "\\u000A") // a rule must be defined in a single line
+	str := quoteLiteral(inst.text, '"')
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From e251a820d9b278a2b458935e834ede318065715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 47/47] fix: the white space a stream returns is a copy,
 writing over or behind it does not change the stream's text

---
 charstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/charstream.go b/charstream.go
index b10e8b7..bc50b6f 100644
--- a/charstream.go
+++ b/charstream.go
@@ -386,7 +386,8 @@ func (inst *CharstreamString) SkipSpaces() []rune {
 	}
 
 	if inst.cursor > beginCur {
-		spaces := inst.chars[beginCur:inst.cursor]
+		// a copy, so that the caller is free to change it
+		spaces := append([]rune(nil), inst.chars[beginCur:inst.cursor]...)
 		inst.positionMap.update(beginCur, spaces...)
 		return spaces
 	}
-- 
2.43.0

