#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

STUB = "Most of the existing test functions are empty stubs; "

p("C01", "Combinators accept exactly the documented language",
  "For every grammar composed of the documented text matchers and combinators (sequence, group, ordered choice, optional, repetition, recursion, look-around, case match, transformation) and every source text, a parse ends matched, unmatched or in error, with the consumed length and the list of result nodes, exactly as the documented meaning of its parts prescribes. A sequence matches only if all parts match one after another, an ordered choice commits to the first alternative that matches, a group wraps precisely the nodes of its parts into one node and a flat group adds none.",
  ["programs", "inputs"], "all grammars over the public combinators (unbounded repetitions consume, recursion is guarded) x all source texts",
  STUB + "the three example grammars exercise a handful of inputs; nothing compares arbitrary grammars with their meaning.",
  ["base/base.go", "base/parsers.go", "base/match.go", "string/parsers.go"],
  [("sequencing / choice / repetition loop", "base/base.go BaseParser"), ("combinators", "base/parsers.go")],
  ["return value of the root parser", "enter/exit of every sub-parser (probe parsers)"])

p("C02", "A branch that fails leaves no trace",
  "When an alternative, a partly matched sequence, the last unfinished round of a repetition or a look-around is given up, everything that follows sees the source position and the nodes produced earlier (their number, order and content) exactly as they were before the attempt, no matter how much the attempt consumed, produced, rewrote or nested. A choice whose earlier alternatives fail gives the same result as if those alternatives had not been there.",
  ["programs", "inputs"], "all grammars, all inputs, all failing branches including those that rewrite already produced nodes",
  STUB + "no test looks at the node stack after backtracking, and node storage is shared between an attempt and its fallback.",
  ["base/base.go", "base/match.go", "base/parsers.go"],
  [("state saved per alternative and per round", "base/base.go BaseParser"), ("in-place stack rewriting", "base/match.go Match")],
  ["context seen by the next parser after a failed branch", "root result"],
  state=[("AstStack", "node stack, one backing array shared by value copies of the context", "base/types.go ParserContext")])

p("C03", "Repetition is greedy, bounded and all-or-nothing per round",
  "A repetition with bounds {min,max} performs as many complete rounds of its parts as the text allows, never more than max (unlimited when max is negative), and matches exactly when at least min rounds were completed (no lower limit when min is negative). The text and nodes it keeps are those of complete rounds only, and it reports the number of rounds it made; once, optional, zero-or-more and one-or-more are the instances {1,1}, {0,1}, {0,}, {1,}.",
  ["programs", "inputs"], "all bounds, all round bodies (one or several parts, nested), all numbers of available rounds incl. partial last rounds",
  STUB + "no test varies the bounds or ends a repetition in the middle of a multi-part round.",
  ["base/base.go", "base/parsers.go", "base/const.go"],
  [("quantifier loop", "base/base.go BaseParser"), ("instances", "base/parsers.go Repeat, Once, ZeroOrOnce, ZeroOrMoreTimes, OneOrMoreTimes")],
  ["root result: status, position, nodes, quantity"])

p("C04", "Look-around and start/end assertions consume nothing and judge truly",
  "Look-ahead, look-behind, their negative forms, start, end and the always/never-matching assertions move the position nowhere and (save for explicitly inserted nodes) add no nodes, alone, nested, repeated or combined. Look-ahead matches exactly if its parts match in order from here; look-behind exactly if they match in order starting at some distance back within its bounds that still lies inside the source; the negative forms match exactly when the positive ones do not; start and end match only at the two ends of the source.",
  ["programs", "inputs"], "all assertion bodies x all source texts x all positions x all look-behind bounds",
  STUB + "look-around has no test at all.",
  ["base/parsers.go", "base/base.go", "string/parsers.go", "object/parsers.go"],
  [("rewind / negation", "base/base.go BaseParser"), ("look-behind scan", "base/parsers.go lookBehindBase"), ("end tests", "string/parsers.go End, object/parsers.go End")],
  ["context returned by the assertion at every position"])

p("C05", "A raised error aborts the whole parse and is reported intact",
  "Once an error parser is reached, a custom parser fails or a transformer returns an error, no choice, repetition, optional part or look-around swallows it: nothing further is tried, and the parse returns error status together with that very error. The reported source position is the one where the failing parser was tried (for a transformer: the position its parser had reached).",
  ["programs", "inputs", "fault_sequences"], "all grammars x inputs x every point at which an error can be raised",
  STUB + "only two example tests reach an error and they look only at err != nil.",
  ["base/base.go", "base/parsers.go", "base/production.go", "base/match.go", "base/transformers.go"],
  [("error propagation", "base/base.go BaseParser, LightBaseParser"), ("error parser", "base/parsers.go Error"), ("error in rules", "base/production.go ProductionRule")],
  ["root result and error value", "probe call log after the error event"])

p("C06", "Every character matcher decides every character correctly",
  "For every Unicode character, every undecodable byte and the end of text, each single-character matcher (any, ranges, sets, predicates, the whitespace, line-break, letter and digit classes, and the complements) matches precisely the characters it is documented for, consumes exactly one encoded character and never matches at the end of text. A fixed-string matcher matches precisely when the text continues with that string (the caseless one: with same-length text equal under case folding), and a string set takes the first listed string the text continues with.",
  ["inputs"], "all 1,114,112 code points, all bytes, all source ends, for every matcher and generated argument sets",
  STUB + "TestAny, TestCharRange, TestWhitespace etc. contain no assertions.",
  ["string/parsers.go", "string/util.go", "string/const.go"],
  [("character tests", "string/parsers.go"), ("class predicates", "string/util.go")],
  ["result of the matcher on each character in several surroundings"])

p("C07", "Tokens record exactly the text, place and length they came from",
  "Every node produced by a text or value matcher carries the matched value, the offset where the match begins and the length it covers. In any match, tokens appear in source order without overlap, and when nothing is erased or transformed their values joined together rebuild the consumed source exactly (an undecodable byte appearing as U+FFFD). A node that a grammar inserts without matching anything is placed at the offset where it is inserted, with length 0. The context a single matcher returns reports the offset behind the match and its length.",
  ["programs", "inputs"], "all grammars without erasing x all source texts, incl. multi-byte characters and tokens after tokens of different length",
  "Node equality in the tests ignores source positions altogether.",
  ["string/parsers.go", "object/parsers.go", "base/parsers.go"],
  [("node creation", "string/parsers.go, object/parsers.go"), ("concatenated node keeps first position", "string/transformers.go Concat")],
  ["position and length of every result node"])

p("C08", "Parsers, predicates and transformers run in documented order, just once",
  "User-supplied parsers, character predicates, case tests and transformers run depth first, left to right, exactly once per attempt: a sequence stops at its first failing part, a choice at its first match, a repetition at its first failing round or at max. Transformers run only after their parser matched, in the listed order, the first receiving precisely the nodes that parser produced and each later one what the previous returned; nothing runs once the outcome is settled.",
  ["programs", "inputs", "histories"], "all grammars x inputs; the whole event history of callbacks is judged",
  "Tests look only at final results; a parser tried twice or a transformer run in vain is invisible to them.",
  ["base/base.go", "base/match.go", "base/parsers.go"],
  [("child loop", "base/base.go BaseParser"), ("transform loop", "base/base.go BaseParser")],
  ["enter/exit events of probe parsers, predicates and transformers"])

p("C09", "Source and user tag reach every callback unchanged",
  "At every custom parser, transformer and case rewrite, at any depth and inside recursion, look-around, repetition or production rules, the context shows the tag the caller supplied, and the final result carries it too. Text and value sources are likewise passed on unchanged; within production rules the source is the list of nodes being reduced.",
  ["programs", "inputs"], "all grammars x inputs x tags (nil, values, pointers); text, value-slice and production-rule contexts",
  "No test uses a tag.",
  ["base/base.go", "base/production.go", "string/new.go", "object/new.go"],
  [("context passed by value", "base/base.go"), ("rule contexts", "base/production.go newContext"), ("constructors", "string/new.go, object/new.go")],
  ["contexts received by callbacks"])

p("C10", "Value matchers follow the source's own equality and never overrun",
  "Over slices of any element type, the any, set, complement, predicate, sequence and end matchers decide each position by the source's own equality: a sequence matches only if every listed value equals the element at its place, a set if the element equals one of its values, a complement if it equals none. Single-value matchers consume one element into one node, a sequence consumes its length into one node holding exactly that run, and none matches or reads past the end of the source.",
  ["inputs", "programs"], "all slices (ints, strings, mixed values, syntax nodes, user types with custom equality) x positions x argument lists x combinators",
  "object/parsers_test.go contains a single trivially true assertion.",
  ["object/parsers.go", "object/new.go", "base/types.go"],
  [("value matchers", "object/parsers.go"), ("equality supplied by source", "base/types.go SliceLike")],
  ["matcher result at every position", "accesses recorded by an instrumented source"])

p("C11", "Stock node transformers give their documented list and touch nothing else",
  "Erase, group, set class/opcode/value, prepend, push, pop, exchange, rotate by n, to-slice, concatenate and trim (left, right, both) yield the documented list for any input list, including empty, one-element and long ones. They never modify the list they were given, nor any node produced outside the parser they are attached to, and give the same answer each time they are applied to the same list.",
  ["inputs", "programs"], "all node lists x all transformers and parameters (any rotation distance), alone, chained and within parses",
  STUB + "TestConcat, TestTrim etc. contain no assertions; exchange and rotate are never called.",
  ["base/transformers.go", "string/transformers.go"],
  [("list transformers", "base/transformers.go"), ("string transformers", "string/transformers.go")],
  ["returned list; input list and its storage before/after"])

p("C12", "Text-to-value conversions are exact or report an error",
  "Converting matched text to a signed, unsigned (any radix from 2 to 36) or floating-point number yields exactly the value the text denotes, or an error when the text (including empty text) is not such a number or does not fit; it never panics and never yields a wrong value. Conversions between integer, character and string preserve the character, and the resulting node's declared type always agrees with its value.",
  ["inputs"], "all texts, signs, radices, boundary magnitudes; all characters",
  STUB + "TestParseInt, TestParseUint, TestParseFloat contain no assertions.",
  ["string/transformers.go"],
  [("integer conversion", "string/transformers.go parseIntImpl, parseUintImpl"), ("float conversion", "string/transformers.go ParseFloat"), ("character conversions", "string/transformers.go RuneFromInt, IntFromRune, StringFromInt, StringFromRune")],
  ["transformer result and error"])

p("C13", "Number recognisers take exactly their documented form",
  "The binary, octal, hexadecimal, integer, float and numeric recognisers match exactly the documented prefix of the text: optional sign where documented, no superfluous leading zero in decimal integer parts, fraction and exponent where documented, underscores allowed after a digit or decimal point, and yield that text without the underscores as a single string node. Whatever they accept contains at least one digit and is accepted by the corresponding numeric conversion.",
  ["inputs"], "all texts over digits, signs, letters, dots, underscores and surroundings",
  "No test in the extra package; examples use only plain integers.",
  ["extra/extra.go"],
  [("recognisers", "extra/extra.go BinaryNumberStr .. NumericStr")],
  ["status, consumed length and node of the recogniser"])

p("C14", "Identifiers and word boundaries follow their character definitions",
  "The ASCII and Unicode identifier recognisers take the longest identifier at the position, as defined by their documented start and continue characters, and nothing else. The ASCII and Unicode word-boundary assertions match exactly between a word and a non-word character and at a source end next to a word character, judging the true neighbouring characters whatever their encoded length.",
  ["inputs"], "all code points as start, continue, left and right neighbour (1 to 4 byte encodings, undecodable bytes) at all positions",
  STUB + "TestWordBoundary has no assertions and the extra package has no tests.",
  ["extra/extra.go", "extra/util.go", "string/parsers.go", "string/util.go"],
  [("previous character search", "string/parsers.go WordBoundary, extra/extra.go UnicodeWordBoundary"), ("character definitions", "extra/util.go isUnicodeWord, string/util.go isWord")],
  ["assertion result at every position", "identifier text"])

p("C15", "Dates and times are recognised and converted to the exact instant",
  "The date, time and date-time recognisers accept exactly the documented ISO 8601 forms (with seconds, 1 to 9 fraction digits and UTC or numeric offset optional or required as documented) and normalise omitted parts. For years 0000 to 9999 the conversion yields precisely that instant in UTC (time of day: on the Unix epoch day), and any text that names no real date, time or offset gives an error rather than another instant. A year outside these is converted exactly or gives an error.",
  ["inputs"], "all calendar days, times, fractions, offsets and near-miss texts",
  "No test in the extra package.",
  ["extra/extra.go", "extra/transformers.go"],
  [("recognisers", "extra/extra.go DateStr, DateTimeStr, TimeStr"), ("conversion", "extra/transformers.go")],
  ["node value (UTC time) or error"])

p("C16", "Production rules reduce by precedence and direction until the goal is met",
  "Applying production rules to a node list repeatedly rewrites one place: the first rule that matches, trying higher precedence levels before lower ones, positions left to right (or right to left where so declared) and rules of a level in listed order; only the matched nodes are replaced by the rule's result. Reduction ends as soon as the goal matches, yields an error if no rule applies while the goal is unmet or if a rule fails, and so groups operators by their declared precedence and associativity.",
  ["programs", "inputs"], "all rule sets (levels, directions, overlapping patterns) x all node lists, long operator chains",
  "Examples reduce about twenty formulas with one fixed table of three levels.",
  ["base/production.go"],
  [("reduction loop", "base/production.go ProductionRule")],
  ["reduced node list", "order of rule attempts and rewrites (probe rules)"])

p("C17", "One parser can serve any number of goroutines at once",
  "A constructed parser, including recursive ones expanded on first use and ones with stock transformers, case rewriting or production rules, may be run from many goroutines at the same time on separate contexts, from its very first use on. There is no data race, and every run gives the result it would give alone.",
  ["schedules", "inputs"], "all interleavings of parses sharing parsers, first-use races included",
  "No test starts a goroutine, and none runs under the race detector.",
  ["base/parsers.go", "base/transformers.go", "base/production.go", "base/base.go", "string/parsers.go", "extra/extra.go"],
  [("lazy expansion", "base/parsers.go Indirect"), ("captured parameters", "base/transformers.go Prepend, Push"), ("no per-parser mutable state", "base/base.go")],
  ["race detector reports", "per-goroutine results against sequential results"])

p("C18", "Parsing is a pure function of parser and source",
  "Running the same parser again on the same source gives the same outcome however often, in whatever order and interleaved with or nested inside whatever other parses it is run, whether the earlier ones matched, failed or raised errors. Results already returned are never changed by later parses, and the source is never modified.",
  ["histories", "inputs", "programs"], "all histories of parses on a set of parsers and sources, incl. re-entrant ones and ones aborted by errors or panics",
  "Each test parses once with a fresh or package-level parser and looks at that result only.",
  ["base/base.go", "base/transformers.go", "base/parsers.go", "base/production.go", "string/new.go"],
  [("context by value", "base/types.go"), ("captured parameters", "base/transformers.go"), ("rule tables", "base/production.go")],
  ["results of each parse in a history, deep snapshots of earlier results"])

p("C19", "Debug tracing observes without influence and its events nest",
  "Wrapping parsers in debug tracing changes no outcome, and parsers built outside the wrapped construction report nothing. Each traced parser reports a begin event and then exactly one end event or panic event, properly nested and carrying the scope path, a distinct tracking number, the class of the parser and the context at that moment; panics still reach the caller.",
  ["programs", "inputs", "histories"], "all grammars built under (nested) tracing x inputs, incl. panicking callbacks",
  "Tracing is never enabled in a test.",
  ["base/tracer.go", "base/base.go"],
  [("trace wrapper", "base/tracer.go tracer"), ("scope save/restore", "base/tracer.go DebugTrace")],
  ["event log of a recording tracer", "results with and without tracing"],
  state=[("traceEnabled/traceScope/parserTracer", "construction-time globals", "base/tracer.go")])

p("C20", "Tree traversal visits and rebuilds exactly the documented tree",
  "Traversal calls the outbound callback before and the return callback after a node's children, children in order (first then second of a pair; items of a list), skips the children of nodes declared lazy, keeps only the last item where so asked, and obeys break, continue and jump requests (also both at once) of items there. The returned tree consists of what the callbacks returned, the given tree is never altered, and an error or throw stops everything and is reported to each enclosing node on the way out and to the caller.",
  ["inputs", "programs"], "all trees of pairs, lists and leaves x all callback behaviours",
  "Traversal has no test.",
  ["base/ast.go", "base/unsafe.go"],
  [("depth-first walk", "base/ast.go Traverse"), ("unchecked value access", "base/unsafe.go rawInterface2")],
  ["callback event log", "returned tree, given tree before/after", "checkptr / race instrumented build"])

p("C21", "No text can crash, hang or overrun a well-formed parser",
  "For every grammar whose unbounded repetitions consume something each round and whose recursion consumes before recursing, every byte string (undecodable, huge or deeply nested within available memory) is parsed in a number of steps bounded by the work the grammar prescribes. It never panics, never reads outside the source and never reports a position outside the source or moving backwards.",
  ["programs", "inputs"], "all well-formed grammars x all byte strings, incl. megabyte inputs and thousands of nesting levels",
  "Tests parse short, well-formed text.",
  ["base/base.go", "base/parsers.go", "string/parsers.go", "string/transformers.go", "extra/extra.go"],
  [("bounds tests before slicing", "string/parsers.go"), ("loops", "base/base.go")],
  ["recovered panics, step counters, positions", "checkptr instrumented build"])

p("C22", "Error positions translate to the right line, column and excerpt",
  "For every text and position in it, the reported line is one plus the number of line ends (CR LF, CR or LF) before the position, the column is one plus the bytes since the line began, and the line index and position are consistent with them. The excerpt shows that line up to its end (preceded by the previous line if there is one) with every tab widened to the given size, and the caret stands under the byte at the position.",
  ["inputs"], "all texts x positions x tab sizes",
  "The function is called by the examples, whose tests discard the message.",
  ["base/util.go"],
  [("line scan and excerpt", "base/util.go GetLineAndColPosition")],
  ["returned structure"])

p("C23", "Node equality and node slices obey their laws",
  "Two syntax nodes are equal exactly if class, declared type and value agree, recursively through pairs and lists, regardless of position or opcode, so equality is reflexive, symmetric and transitive. The node slice reports length and elements faithfully, a copy is independent of the original, a re-slice covers exactly the requested range, and a made slice has the requested length.",
  ["inputs"], "all nodes and node lists (nested pairs and lists, all value kinds)",
  "Equality is used by one test helper on flat string nodes.",
  ["base/ast.go", "base/types.go"],
  [("structural equality", "base/ast.go ItemEquals"), ("slice operations", "base/ast.go AstSlice")],
  ["results of the operations against a value model"])

p("C24", "Value boxes return what was last stored, in the place addressed",
  "Over addressable values and maps, a box's typed and untyped getters return what was last stored through that box, another box for the same place, or directly; storing through a box changes exactly that place and no other. Element and key access address the documented element, and a declared-but-unset map entry refuses to be read or entered until it has been set through the box.",
  ["histories", "inputs"], "all sequences of set/get/index operations over typed containers and maps of any-type values, nil included",
  "Boxes have no test.",
  ["base/box.go"],
  [("reflection boxes", "base/box.go")],
  ["box results against a shadow model after each operation"])

p("C25", "CSV text and tables convert into each other without loss",
  "Writing any table of valid text cells and parsing it back yields the same table, whatever commas, quotes, line breaks or surrounding blanks its cells contain (tables whose rows are not a single empty cell). Any text is either parsed into rows as quoting, comma and line-break rules prescribe, with doubled quotes inside quotes standing for one, or rejected with an error naming line and column.",
  ["inputs"], "all tables; all texts",
  "Five samples without embedded quotes, commas or blanks.",
  ["_examples/csv/parser.go", "_examples/csv/marshal.go"],
  [("grammar", "_examples/csv/parser.go"), ("quoting", "_examples/csv/marshal.go toCsvRow")],
  ["Parse and ToCsv results"])

p("C26", "CSV records map to struct fields losslessly or with an error",
  "Marshalling a list of structs writes each field's value into the column named by its tag or name, leaves other columns empty and ignores fields without a column; unmarshalling text with a header fills each field from its column. A cell that is missing or does not fit its field's type gives an error, never a panic or a silently altered value, and leaves the destination unchanged.",
  ["inputs", "programs"], "all struct shapes over string, integer and float fields x column lists x texts",
  "Neither function has a test.",
  ["_examples/csv/marshal.go"],
  [("column mapping", "_examples/csv/marshal.go Marshal, Unmarshal")],
  ["Marshal/Unmarshal results"])

p("C27", "Formulas evaluate and translate to RPN as arithmetic demands",
  "Every formula over integers, unary minus, + - * / and parentheses evaluates to the value that usual precedence and left associativity give (64-bit arithmetic), and its RPN translation denotes the same expression. Text that is not a formula, numbers out of range and division by zero give an error that names line and column, never a panic or a value.",
  ["inputs"], "all formulas and near-formulas of any depth and spacing",
  "Some twenty fixed formulas.",
  ["_examples/formula/formula.go", "_examples/formula/precedence.go", "_examples/torpn/torpn.go", "_examples/torpn/precedence.go", "base/production.go"],
  [("grammar", "_examples/formula/formula.go, _examples/torpn/torpn.go"), ("rules", "precedence.go")],
  ["Parse results against an independent evaluator"])

p("C28", "Case matching rewrites just the topmost nodes by the first fitting case",
  "A case-match looks at the latest nodes, applies the rewrite of the first case whose test accepts to at most the requested number of topmost nodes (fewer if fewer exist), and leaves all nodes beneath them untouched; with no fitting case it is unmatched and changes nothing. The stock tests accept exactly if the topmost node's value has the tested kind and equals one of the listed values.",
  ["programs", "inputs"], "all node stacks x case lists x counts, within sequences, choices and repetitions",
  "Case matching has no test.",
  ["base/match.go"],
  [("case selection and rewrite", "base/match.go Match"), ("stock tests", "base/match.go TopIs*")],
  ["node stack before and after"])

p("C29", "Deferred parsers make recursive grammars work at any depth",
  "A parser deferred for recursion behaves exactly like the parser it stands for, at any nesting depth the memory allows, including mutual recursion and several deferred references. Its definition is not expanded while the grammar is being built, only when first needed, and then once, however often it is used.",
  ["programs", "inputs", "histories"], "all recursive grammars x nesting depths x repeated use",
  "The formula examples nest at most four levels.",
  ["base/parsers.go"],
  [("lazy expansion", "base/parsers.go Indirect"), ("construction-time choice", "base/parsers.go If")],
  ["expansion counters", "results against recognisers written by hand"])

p("C30", "Custom parsers built on the public base follow the same rules",
  "A parser built through the public constructors with any combination of repetition, alternation, negation and rewind properties behaves as the corresponding built-ins do, its hook running once after each completed round with the number of parts matched and once at the end, each able to veto or to rewrite the result. An error from the custom code always surfaces as error status together with that error, at whichever hook call it arises, and a match reports its class and count.",
  ["programs", "inputs", "fault_sequences"], "all property combinations x hook behaviours (accept, veto, error at any call) x inputs",
  "Hooks and property combinations beyond the built-ins are used by no test.",
  ["base/base.go", "base/types.go"],
  [("hook protocol", "base/base.go BaseParser"), ("light parsers", "base/base.go LightBaseParser")],
  ["hook call log, returned context and error"])

p("C31", "The WebAssembly build gives the same answers as the native one",
  "The functions exported to JavaScript return, for every source text, the same table or number that the native parser returns. Library results (status, position, nodes) do not depend on the platform the library is compiled for.",
  ["inputs", "configurations"], "all source texts x target platforms",
  "Tests run on one platform only; the WebAssembly entry points are only compiled.",
  ["wasm/main.go", "_examples/csv/parser.go", "_examples/formula/formula.go", "base/unsafe.go"],
  [("exported functions", "wasm/main.go parseCsv, parseFormula")],
  ["JavaScript-side results under node", "digests of results from wasm and 32-bit builds"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
