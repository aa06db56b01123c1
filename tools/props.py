#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, tests, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))

p("C01", "A text matches a rule exactly when the rule's definition says so",
  "Evaluating any rule built from terminals, groups, options, repetitions, choices, sequences and references on any text matches exactly when the documented meaning of the rule says it does, and the match covers exactly the characters the definition selects (each item taken greedily, in order). The resulting tree mirrors the rule: its node types, rule names, children and texts are those the definition prescribes, and a failed evaluation reports an error.",
  ["inputs", "programs"], "every grammar x every input text x every leading-space mode",
  "Tests evaluate a few dozen hand written rule/text pairs; interactions of nested operators with look-ahead on other texts are never reached.",
  ["rule.go", "rule_concatenate.go", "rule_choice.go", "rule_repetition.go", "rule_option.go", "rule_group.go", "rule_reference.go", "rule_terminal_char.go", "rule_terminal_chars.go", "rule_terminal_string.go", "rule_terminal_range.go", "rule_eof.go", "grammar.go"],
  [("recursive evaluation of each rule type", "rule_*.go Eval"), ("push-back of characters that were read ahead", "charstream.go CharstreamPrepend")],
  observe=["IRule.Eval", "Grammar.EvalRule", "EvalResult.Node"])
p("C02", "Parsing a whole text loses, adds and reorders nothing",
  "Parsing a text against a grammar repeatedly applies the root rules (those no other rule uses) and takes the longest match; on success the top nodes' leaf texts, in order, are exactly the input text apart from the white space that is skipped before a match. Two different root rules matching the same longest text is reported as an ambiguity, and a text with a place where no root rule matches is reported as an error, never silently truncated.",
  ["inputs", "programs"], "every grammar with one or several root rules x every input text",
  "Tests parse a few sample files with one root rule each; several roots which read ahead different distances are not covered.",
  ["grammar.go", "rule.go", "charstream.go"],
  [("root rule loop with push-back of unused characters", "grammar.go EvalRaw")], observe=["Grammar.Eval", "Grammar.EvalRaw", "AST.Nodes"])
p("C03", "A choice takes the longest alternative of the first group that matches",
  "Among alternatives separated by '|' the one that covers most characters wins, wherever it is listed; alternatives separated by '>' are tried in order and the first that matches wins. An ambiguity is reported exactly when two alternatives of a group cover the same longest text, and whatever alternatives read ahead stays available to the rules that follow.",
  ["inputs", "programs"], "every choice (any number, order and nesting of alternatives) x every text",
  "Tests hold a handful of choices with two or three alternatives.",
  ["rule_choice.go", "rule.go"], [("most greedy selection and prioritized groups", "rule_choice.go Eval")], observe=["EvalResult"])
p("C04", "A repetition matches between its minimum and maximum number of times",
  "A repetition takes as many consecutive matches as the text offers up to its maximum, fails when they are fewer than its minimum, and leaves everything after the last match to the rules that follow; an option matches at most once and never fails. Every documented spelling of the bounds (none, '*', '+', '<n>', '<n,>', '<,m>', '<n,m>') means its documented bounds.",
  ["inputs", "programs"], "every pair of bounds and spelling x every repeated rule x every number of occurrences in the text",
  "Tests use bounds up to 3 on single characters.",
  ["rule_repetition.go", "rule_option.go"], [("iteration with min/max bookkeeping", "rule_repetition.go Eval"), ("bounds reader", "rule_repetition.go")], observe=["EvalResult"])
p("C05", "A block spans its opening to the first unescaped, non-excluded close",
  "A block matches from its opening text to the first closing text that is not escaped, and its content is exactly the text between them; an escape protects the closing or excluded text that follows it. Excluded text that is not escaped, or a missing close, makes the block fail, and a close marked as reusable ends the block but stays available to the next rule.",
  ["inputs", "programs"], "every combination of open, escape, exclude and close rules x every text",
  "Tests cover a few block rules on a few well formed texts; overlapping escape, exclude and close texts are not.",
  ["rule_block.go", "rule.go"], [("block scan loop", "rule_block.go Eval"), ("longest excluded text", "rule.go mostGreedy")], observe=["EvalResult"])
p("C06", "White space is skipped exactly where it is optional",
  "White space (every character Unicode calls white space) before an item is skipped when the item to its left is not sticky (strings and blocks are not; characters, character sequences and ranges are, and compound items follow their parts; an option or repetition without a match leaves this as it was), and never otherwise; strict evaluation skips none before its first item. A literal that itself contains or starts with white space still matches that white space. Whether white space may follow is reported with each match and honoured by whatever comes next.",
  ["inputs", "programs"], "every sequence of sticky and non-sticky items, every literal with white space x every text x every white space character",
  "Tests use spaces and a tab around single literals only.",
  ["space.go", "rule_concatenate.go", "rule_terminal_char.go", "rule_terminal_chars.go", "rule_terminal_string.go", "rule_terminal_range.go", "rule_eof.go"],
  [("leading-space mode passed down", "rule_*.go Eval"), ("white space table", "space.go IsWhiteSpace")], observe=["EvalResult.Sticky", "IsWhiteSpace"])
p("C07", "A literal in a definition denotes exactly the characters it spells",
  "Each character, string and range literal in a rule definition, including every escape and every four digit unicode escape in upper or lower case, denotes exactly the code points it spells: it matches precisely those characters and nothing else. A range matches exactly the code points between its ends, both included, and malformed literals are rejected.",
  ["inputs", "programs"], "every 16 bit escape, every code point, every pair of range ends around every code point",
  "Tests try a few escapes; 65536 escapes and 1.1 million code points are never enumerated.",
  ["rule_terminal_char.go", "rule_terminal_chars.go", "rule_terminal_string.go", "rule_terminal_range.go"],
  [("escape reader", "rule_terminal_char.go parseUnicodeEscape"), ("range comparison", "rule_terminal_range.go Eval")], observe=["Grammar.ParseRule", "EvalResult"])
p("C08", "Every node reports the line and column where its text starts",
  "Every node that has text reports the line and column of the first character of its text, counted from 1 over the whole input, whatever was read ahead, skipped or pushed back before and wherever the evaluation started. Merging and simplification keep the position of the first character a node matched, even where the node of that character is removed.",
  ["inputs", "programs"], "every rule x every text with newlines x every start",
  "Tests compare positions of a few nodes in one short text.",
  ["charstream.go", "rule_*.go", "node.go"], [("line table", "charstream.go positionMap"), ("position lookup by index", "charstream.go PositionLookup")], observe=["Node.Position"])
p("C09", "A character stream delivers its text once, in order, with true positions",
  "Whatever sequence of read, peek, match, skip and position queries is made, a stream delivers the characters of its text exactly once and in order, a peek consumes nothing, the end is reported only at the end and from then on, and every position or cursor it reports is the true line, column and index. A stream with characters pushed back, to any depth of nesting, behaves exactly like a stream positioned before those characters.",
  ["histories", "inputs"], "every sequence of stream operations x every text x every push-back nesting",
  "Tests run about ten fixed operation sequences.",
  ["charstream.go"], [("cursor and line table", "charstream.go CharstreamString"), ("push-back", "charstream.go CharstreamPrepend")], observe=["ICharstream"])
p("C10", "Streams are safe for concurrent use",
  "Under every interleaving of concurrent calls on one stream each operation appears to take effect at one instant: every character is delivered to exactly one caller, a match or skip is not torn by other callers, and positions are true. There is no data race and no deadlock.",
  ["schedules", "histories"], "every interleaving of two or three callers making every short sequence of stream operations",
  "The tests use a stream from one goroutine only; the claim 'thread-safe' in the code is about all schedules.",
  ["charstream.go"], [("reader/writer lock per stream", "charstream.go lock")], observe=["ICharstream"])
p("C11", "One grammar can evaluate many texts at the same time",
  "Concurrent evaluations, with separate streams, on one shared validated grammar give each caller exactly the result it would get alone, under every interleaving, with no data race and no deadlock. Parsing, simplifying and printing results concurrently does not disturb the grammar.",
  ["schedules"], "every interleaving (within a preemption bound) of concurrent evaluations on one grammar",
  "No test evaluates concurrently.",
  ["grammar.go", "rule_*.go", "node.go"], [("evaluation keeps its state in results, not in rules", "rule_*.go Eval")], observe=["Grammar.Eval", "Grammar.EvalRule", "Grammar.EvalEmbed"])
p("C12", "The same grammar and text always give the same result",
  "A result depends only on the grammar's definitions and the text: not on map iteration order, on earlier evaluations or failed evaluations, on the order rules were added in, nor on what callers did to earlier results. Printing, validating and evaluating change nothing that a later call can observe.",
  ["histories", "schedules"], "every order of map iteration x every history of earlier evaluations and result mutations",
  "Each test evaluates once on a fresh grammar, with one random map order.",
  ["grammar.go", "rule_*.go", "node.go", "ast.go"], [("root rules kept in a map", "grammar.go EvalRaw"), ("nodes copied from rules", "rule_*.go Eval")], observe=["Grammar.Eval", "Grammar.EvalRule", "Grammar.Serialize"])
p("C13", "A printed rule definition parses back to the same rule",
  "The definition text of any rule, printed from the parsed rule, parses again, prints identically, and denotes the same rule: same matches, same trees, same marks on every text. The same holds for a whole grammar printed and loaded again.",
  ["programs", "inputs"], "every rule definition up to a size x every text",
  "Tests print a few rules and compare with a fixed string.",
  ["rule_*.go", "grammar.go"], [("String() of each rule type", "rule_*.go String"), ("Serialize", "grammar.go Serialize")], observe=["IRule.String", "Grammar.Serialize"])
p("C14", "A definition is accepted exactly when it is well formed",
  "Every rule definition text is either accepted as the rule its tokens spell under the documented precedence, or rejected with an error; malformed definitions (unbalanced brackets, missing operands, bad names, bad bounds, dangling separators) are always rejected, and a file of definitions is accepted exactly when each definition is and no name is defined twice.",
  ["programs"], "every definition text up to a length over the meta characters, every token sequence up to a length",
  "Tests try about sixty definitions.",
  ["grammar.go", "rule_*.go"], [("definition parser", "grammar.go parse, parseOne")], observe=["NewGrammarFromString", "Grammar.AddRule", "Grammar.ParseRule"])
p("C15", "However a grammar is built up, it means what its accepted rules say",
  "Whatever history of adding rules, rejected rules, undefined references and validations led to it, a grammar has exactly the accepted rules, reports exactly the references that are undefined, and evaluates like one loaded from those definitions at once. A rejected definition leaves no trace. Its printed form lists each accepted rule once, in the order of definition, with the rules that use it.",
  ["histories", "programs"], "every history of additions (good, bad, duplicate), validations and evaluations up to a length",
  "Tests build each grammar once, in one order, without failures in between.",
  ["grammar.go"], [("rule records with uses and used-by", "grammar.go RuleRecord"), ("Validate", "grammar.go Validate")], observe=["Grammar.AddRule", "Grammar.Validate", "Grammar.Serialize", "Grammar.EvalRaw"])
p("C16", "Each simplification level removes exactly what it documents",
  "Simplifying a tree merges runs of sticky neighbours, removes virtual and non-data nodes and drops structure without a name, exactly as the chosen level documents and nothing else: names, order, positions and all remaining text are kept. A token is never joined to its neighbours, and simplifying never drops data text.",
  ["inputs", "programs"], "every tree shape with every combination of marks x every level",
  "Tests simplify a few trees at one or two levels.",
  ["ast.go", "node.go"], [("merge, reduce and removal of nodes", "node.go, ast.go")], observe=["AST.Simplify", "Node.MergeStickyNodes", "Node.RemoveNonDataNodes"])
p("C17", "Embedded evaluation splits a text into matches and the free text between",
  "Evaluating a rule embedded in free text yields the leftmost matches in order, each taken as a direct evaluation at that place would take it, with the text between them as text nodes. The matches and text nodes cover the input from first to last character, in order and without overlap, so nothing is lost, duplicated or reordered (white space skipped inside a match is part of that match).",
  ["inputs", "programs"], "every rule x every text",
  "Tests hold two or three embedded samples.",
  ["grammar.go"], [("scan loop", "grammar.go EvalEmbed")], observe=["Grammar.EvalEmbed"])
p("C18", "Every evaluation and definition ends without crashing",
  "Loading any definition text and evaluating any rule that is not left recursive on any text ends, in every entry point, with a result or an error: no endless loop, no panic, no unbounded memory. Work grows with the text and the rule, not beyond.",
  ["inputs", "programs"], "every definition text, every non-left-recursive grammar x every text, including rules that match nothing",
  "Tests contain no rule that matches the empty text inside a loop.",
  ["grammar.go", "rule_*.go", "charstream.go"], [("progress checks in loops", "rule_repetition.go, rule_block.go, grammar.go")], observe=["NewGrammarFromString", "Grammar.Eval", "Grammar.EvalEmbed"])
p("C19", "An evaluation accounts for every character it took from the stream",
  "After any evaluation, matching or not, the characters it reports as read are exactly those it took from the stream, in order, and those it reports as unused are exactly the tail of them that the match does not cover; without a match nothing counts as used. Pushing the unused characters back leaves the stream exactly after the match.",
  ["inputs", "programs"], "every rule x every text x every start, matching or failing",
  "Tests look at the unused characters of a few results.",
  ["rule_*.go", "rule.go"], [("CharsRead/CharsUnused bookkeeping", "rule_*.go Eval")], observe=["EvalResult.CharsRead", "EvalResult.CharsUnused", "ICharstream.Cursor"])
p("C20", "The command line parses files and samples as the library does",
  "For every combination of its options the command prints the tree, grammar or result that the library gives for the same grammar, rule and text, simplified to the data-only level, for every text and file in the order given. Missing options, unreadable files, rejected definitions and failed parses are reported as an error, and no tree is printed for them or after them.",
  ["configurations", "inputs"], "every combination of command line options x grammar files x texts",
  "No test runs the command.",
  ["main/xbnf.go"], [("option handling and output", "main/xbnf.go")], observe=["process output"])
p("C21", "The shipped grammars accept their languages and structure them right",
  "The JSON grammar that ships with the project accepts exactly the JSON texts it documents and its tree carries each of the text's values, in order; the arithmetic grammar accepts exactly the sequences of well formed expressions and its tree has the usual precedence and left-to-right grouping; the property grammar yields each key with its (not empty) value. The shipped sample files parse to the structure their content has.",
  ["inputs"], "every text up to a length over each language's token alphabet",
  "Tests parse a few sample files and look at the text of some nodes.",
  ["main/samples/json/json.xbnf", "main/samples/arithmetic/arithmetic.xbnf", "main/samples/property/property.xbnf", "grammar.go"],
  [("sample grammars evaluated by the engine", "main/samples")], observe=["Grammar.Eval", "AST"])
p("C22", "Marks and names in a definition appear on exactly the nodes they mark",
  "A token, virtual or non-data mark on an item appears on the nodes that item produces and on no other, an item referring to a marked rule gets the marks combined as documented, and a named rule's node carries its name. Marks never change what matches.",
  ["programs", "inputs"], "every combination of marks on every rule type, context and chain of references",
  "Tests use single marks on a few rules.",
  ["rule_*.go", "grammar.go"], [("annotation reader", "grammar.go parse"), ("marks copied to nodes", "rule_*.go Eval")], observe=["Node.Virtual", "Node.NonData", "Node.Tokenized", "Node.RuleName"])
p("C23", "Tree queries report exactly what the tree contains",
  "The text, counts and printed form of a tree or node report exactly its content: the text is the leaves' text in order (one blank between neighbours inside a node that are not both sticky, none inside a block or between the top nodes of a tree, no character for end of file), counts count each node once, and the printed tree shows every selected node once, in order and at its depth. Asking never changes the tree.",
  ["inputs"], "every tree shape up to a size x every combination of marks, texts and print options",
  "Tests print one or two trees.",
  ["node.go", "ast.go"], [("recursive walks", "node.go, ast.go")], observe=["Node.Text", "Node.StringTree", "AST.CountNodes", "AST.StringTree"])
p("C24", "A failure names what was missing and the true place",
  "The error of an evaluation that does not match or a parse that fails says truthfully why: every \"missing X at Lx:y\" (or \"at EOF\") in it names a terminal of the grammar and the line and column, with or without the white space in front, at which that terminal was tried and did not match; a sequence or repetition tells why its failing item failed, a choice why an alternative that got furthest (greatest ErrIdx) failed, a block what is missing or which excluded text, exactly, it met. No error is without such a reason, and a parse that finds no match names every root rule. An ambiguity names two of the rules that match the same longest text, and that text.",
  ["programs", "inputs"], "every rule x every text that it does not match, every grammar of several root rules x every text that does not parse",
  "Tests only ask whether there is an error.",
  ["rule_*.go", "grammar.go"], [("errors and ErrIdx passed up", "rule_*.go Eval"), ("errors of the root rules", "grammar.go EvalRaw")], observe=["EvalResult.Error", "EvalResult.ErrIdx", "Grammar.Eval"])
p("C25", "Lines are numbered truthfully when a grammar is loaded and printed",
  "When a grammar text is rejected the error names the number of the first line that cannot be used and the name it defines; a repeated name also tells the line of its first definition; a reference to nothing is named. Loading a file says the same with the file's name in front. A loaded grammar prints each rule with the number of the line that defines it, and definitions added one by one are numbered in the order they were accepted, whatever was rejected in between.",
  ["inputs", "histories"], "every text of lines (definitions good, bad, repeated, comments, blank lines) up to a length",
  "Tests only ask whether loading fails.",
  ["grammar.go"], [("line counting", "grammar.go NewGrammarFromString, ParseRule"), ("Serialize", "grammar.go Serialize")], observe=["NewGrammarFromString", "NewGrammarFromFile", "Grammar.AddRule", "Grammar.Serialize"])
p("C26", "Evaluation works on any character stream, whatever provides it",
  "A caller may hand in any implementation of the character stream interface: a wrapper, a section with its own counting of lines and indexes, a reader that fetches one character at a time, or a stream part of which has been read before. Evaluating and parsing on it gives the same match, tree, characters read and unused, and error as on the library's own stream of the same text, with the places the given stream reports; afterwards the stream stands where the library's own would stand.",
  ["inputs", "configurations"], "every kind of stream x every grammar x every text",
  "Tests only ever use the library's own stream, from its start.",
  ["charstream.go", "rule_*.go", "grammar.go"], [("push-back over any stream", "charstream.go CharstreamPrepend"), ("positions asked from the stream", "rule_*.go Eval")], observe=["IRule.Eval", "Grammar.Eval", "ICharstream.Cursor"])
p("C27", "Rewriting a rule into an equivalent one changes nothing it matches",
  "Two spellings of the same rule behave alike: brackets around a part, giving a part a name and referring to it, another order of '|' alternatives, nested instead of flat '>' choices, a sequence in a sequence, a literal spelled as single characters, a range spelled as alternatives, an option spelled as a repetition of at most one, or marks on a part. Each rewriting, at any place of a rule, matches the same texts, covers the same characters and treats the white space around it alike.",
  ["programs", "inputs"], "every rule x every place in it x every rewriting x every text",
  "Tests never compare two spellings of a rule.",
  ["rule_*.go", "grammar.go"], [("evaluation of each rule type", "rule_*.go Eval"), ("definition parser", "grammar.go parse")], observe=["NewGrammarFromString", "IRule.Eval"])
p("C28", "The detailed listing of a rule shows its whole structure",
  "The indented listing of a rule (and that of a grammar with details) names every part of the rule once, in order, each one level deeper than the part that contains it and as deep as its siblings: sequences, choices, groups, options and repetitions with their bounds, and the leaves (characters, strings, ranges, references, blocks, EOF) as they are defined. Marks on leaves are shown, those on EOF and on compound parts are not. The listing of a grammar holds each rule's listing under its definition.",
  ["programs"], "every rule, alone and in a grammar, with any indent",
  "No test looks at the detailed listing.",
  ["rule_*.go", "grammar.go"], [("recursive listing", "rule_*.go StringWithIndent"), ("listing of a grammar", "grammar.go Serialize")], observe=["IRule.StringWithIndent", "Grammar.Serialize"])
p("C29", "Which characters and names a grammar uses does not matter, only which agree",
  "No character (other than white space) and no rule name is special: if characters are replaced consistently in a grammar's literals and in the text, ranges staying ranges, wherever in Unicode they are moved and however they are spelled, or if rules are renamed or defined in another order, every evaluation, parse and embedded evaluation gives the same result with the replacement made. Only the reserved name EOF is excepted.",
  ["programs", "inputs"], "every grammar x every text x every place in Unicode x every naming and order of the rules",
  "Tests use ASCII letters and a few names, in one order.",
  ["rule_*.go", "charstream.go", "grammar.go"], [("comparison of characters", "rule_terminal_*.go, charstream.go"), ("rule lookup by name", "grammar.go GetRecord, rule_reference.go")], observe=["IRule.Eval", "Grammar.Eval", "Grammar.EvalEmbed"])
p("C30", "Every way to load and evaluate gives the same answer",
  "It does not matter by which entry point a grammar is loaded or a text is evaluated. A grammar given as one string, as a file, rule by rule (AddRule) or as name and expression (ParseRule) holds the same rules; the same text then gives the same result by EvalRule, by the rule itself (skipping leading white space) and in every loading. Eval at a level gives EvalRaw's tree with the documented steps of that level applied (merging sticky nodes, dropping virtual and non-data nodes, promoting), an unlisted level behaves as the basic one, and a step applied to a result, a node, a list of nodes or a tree is the same step. The printed result shows exactly its parts.",
  ["configurations", "programs", "inputs"], "every grammar x every text x every way to load x every entry point and level",
  "Tests use one way to load, mostly one level, and never compare entry points.",
  ["grammar.go", "rule.go", "ast.go", "node.go"], [("entry points", "grammar.go NewGrammarFromString, AddRule, ParseRule, EvalRule, Eval, EvalRaw"), ("steps on trees and results", "ast.go, node.go, rule.go")], observe=["Grammar.EvalRule", "Grammar.Eval", "Grammar.EvalRaw", "EvalResult.MergeStickyNodes", "EvalResult.StringTree"])
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    print(json.dumps(x))
