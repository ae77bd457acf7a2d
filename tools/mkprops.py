#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json
P = "src/fcsql/parser.py"; V = "src/fcsql/validation.py"; I = "src/fcsql/__init__.py"
GP = "src/fcsql/FCSParser.py"; GL = "src/fcsql/FCSLexer.py"; G4P = "src/fcsql/FCSParser.g4"; G4L = "src/fcsql/FCSLexer.g4"
GLi = "src/fcsql/FCSParserListener.py"; GVi = "src/fcsql/FCSParserVisitor.py"
out = []
def p(id, title, statement, over, q, why, files, mech, observe=(), state=()):
    out.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "observe_at": list(observe), "hook_needed": None}})

p("P01", "Parsing ends in a tree or the documented parser exception, nothing else",
  "For every input string, parsing a query either returns a query tree or raises the documented query-parser exception; no other exception type ever escapes, whatever fails inside the tokenizer, the parser or the tree construction. The boolean can-it-be-parsed helper never raises and answers true exactly when parsing the same string succeeds.",
  ["inputs", "fault_sequences"], "every string, and every exception the ANTLR runtime or the tree builder may raise underneath",
  "Two invalid samples are tested; none of them makes the runtime or the builder fail in an unforeseen way, and the helper is untested.",
  [P, I], [("exception translation in QueryParser.parse", P), ("can_parse", I)], ["fcsql.parse", "fcsql.can_parse", "QueryParser.parse"])
p("P02", "A query with a lexical or syntax error is never accepted",
  "If the tokenizer or the grammar-based parser reports any error anywhere in the query, parsing fails with the documented parser exception: no tree is ever built from a recovered or partially skipped input. A query without such errors is not rejected as syntactically wrong, and diagnostics go to the parser object rather than to the console.",
  ["inputs"], "every query and every set of lexical and syntactic errors in it, including errors only the tokenizer sees",
  "ANTLR recovers silently from errors, so a dropped listener or check only shows on inputs with that kind of error; tests hold two invalid samples and no tokenizer-only error.",
  [P], [("error listener registered on lexer and parser before parsing; guard before tree building", P)], ["QueryParser.parse", "stderr"])
p("P03", "The low-level parse wrapper raises on lexical and on syntactic errors",
  "The low-level wrapper that returns ANTLR's own parse tree raises the package's syntax error whenever the tokenizer or the parser reports an error, and otherwise returns the tree of the whole query. It never hands out a tree from which unrecognised characters were dropped.",
  ["inputs"], "every input string", "The wrapper is not exercised by any test.",
  [I], [("throwing error listener on lexer and parser", I)], ["fcsql.antlr_parse"])
p("P04", "After parsing, the error list holds exactly the diagnostics of that parse",
  "After a failed parse the parser object lists exactly the lexical and syntactic diagnostics reported for that query, in order, each marked as a syntax error with its message; the exception text quotes the first one. After a successful parse the list is empty, and a list obtained earlier is never changed by a later parse.",
  ["inputs", "histories"], "every sequence of parses on one parser object, with any number of errors each",
  "Tests look at one single-error query through the convenience function; reuse of a parser object after failures is never tested.",
  [P], [("per-parse listener; error list replaced on every exit", P)], ["QueryParser.errors", "QueryParserException text"])
p("P05", "Syntax diagnostics point at the offending text of the raw query",
  "Every syntax diagnostic that concerns a token carries that token's half-open start/stop offsets in the raw query and the query text up to and including the token; a diagnostic of the tokenizer carries the absolute offset at which tokenization failed, in multi-line queries too. Unknown token offsets yield no location rather than a bogus one.",
  ["inputs"], "every erroneous query, any offending token (also end of input) and any line",
  "One position is asserted (end of a one-character query); multi-line input, lexer errors and tokens without offsets are not covered.",
  [P], [("ErrorListener.syntaxError, SourceLocation.fromToken", P)], ["ErrorDetail.position", "ErrorDetail.fragment"])
p("P06", "Each grammar construct becomes exactly one node with all operands in order",
  "In the tree returned for a valid query every sequence, disjunction, group, segment, wildcard, and/or/not/group expression and within clause of the query appears as exactly one node of the corresponding kind, with exactly its operands as children, none lost, duplicated or moved, in source order and at the same nesting. Only the construct itself decides the kind of node; wrappers without meaning add no node.",
  ["inputs"], "every valid query: all nestings and any number of operands",
  "The regression tests only assert that some node comes back; no test looks at the shape of a tree.",
  [P], [("ExpressionTreeBuilder visit methods and their operand stack", P)], ["QueryNode.children", "node classes"],
  [("stack", "operands produced but not yet consumed", "ExpressionTreeBuilder.stack")])
p("P07", "Parent and child links of a query tree agree",
  "In every tree the parser returns, each child's parent is the node that lists it as a child, and the root has no parent. Building a node takes over exactly the given children and leaves the caller's list unchanged.",
  ["inputs"], "every tree and every node kind", "No test reads parent links.",
  [P], [("QueryNode constructor links children", P)], ["QueryNode.parent", "QueryNode.children"])
p("P08", "Source locations span exactly the construct, if and only if enabled",
  "With source locations enabled every node of the returned tree carries the half-open character range of its own construct in the raw query, from its first token to the end of its last one. With locations disabled no node carries one, and the setting changes nothing else in the tree; the simple parse function enables them unless told otherwise.",
  ["inputs", "configurations"], "every valid query, every node kind, both settings",
  "Only the location of one inner expression is asserted.",
  [P, I], [("SourceLocation.fromContext; assignment per visit method", P), ("enableSourceLocations pass-through", I)], ["QueryNode.location"])
p("P09", "Expressions carry exactly the written layer, qualifier, operator and defaults",
  "An expression node holds the layer identifier, layer qualifier, operator (equal or not-equal) and value as written in the query, each in its own field; without a qualifier the qualifier is absent. A bare quoted string uses the parser object's configured default layer identifier and default operator, which are \"text\" and equals unless configured otherwise.",
  ["inputs", "configurations"], "every expression and every parser configuration",
  "Values of fields of parsed expressions are asserted nowhere; configured defaults are never used in tests.",
  [P], [("visitAttribute, visitExpression_basic, visitQuery_implicit, Expression constructor, QueryParser constructor", P)], ["Expression fields"])
p("P10", "Quantifiers give the documented repetition bounds",
  "A segment or group without quantifier occurs exactly once; * means 0 to unbounded, + 1 to unbounded, ? 0 to 1, {n} exactly n, {n,} n to unbounded, {,m} 0 to m and {n,m} n to m. A range whose minimum exceeds its maximum is rejected with the documented parser exception, and no other range is (numbers beyond 4300 digits, Python's own conversion limit, aside).",
  ["inputs"], "all quantifier forms and all integers, on segments and on groups",
  "Samples only show that {1,5}, {3,} and ? parse and {3,0} does not; the resulting bounds are never read.",
  [P], [("processRepetition, processRepetitionRange; use in segment and group visits", P)], ["min_occurs/max_occurs"])
p("P11", "Quoted values are decoded exactly: quotes stripped, every legal escape handled",
  "The value of an expression is the text between its quotes with each escape replaced by what it denotes: backslash, quotes, newline, tab and hex code points by the character, regex metacharacters by their regex-escaped form; all other text is kept verbatim. Every escape the query grammar admits is decoded at any position, and an escape denoting no valid code point is rejected with the documented parser exception.",
  ["inputs"], "every string literal: each escape, at each position and combination",
  "The samples only assert that a node comes back; decoded values are never compared, and two legal escapes occur in no sample.",
  [P, G4L], [("stripQuotes, unescapeString, unescapeUnicode, parseHexChar", P), ("ESCAPED_CHAR", G4L)], ["Expression.regex"])
p("P12", "Values are Unicode-normalised last, in exactly the configured form",
  "If the parser object is configured with a Unicode normalisation form (NFC by default), every expression value is normalised in that form after escapes are decoded, and the result is what the tree carries. If it is configured with none, values are not normalised at all; layer names and query text are never altered.",
  ["inputs", "configurations"], "every value and all five configurations",
  "No test compares a normalised value or configures the form.",
  [P], [("visitRegexp", P)], ["Expression.regex"])
p("P13", "Regex flags map to their meaning and contradictory flags are rejected",
  "i and c mean case-insensitive, I and C case-sensitive, l literal matching and d ignore diacritics; the expression carries exactly the set of flags written, in any order and with repetitions, and none if none are written. Case-sensitive with case-insensitive, or literal matching with any other flag, is rejected with the documented parser exception, and no other combination is.",
  ["inputs"], "every combination, order and repetition of flag letters",
  "Three single flags appear in samples, without looking at the result; no forbidden combination is tested.",
  [P], [("visitRegexp flag loop and checks, RegexFlag", P)], ["Expression.regex_flags"])
p("P14", "Within clauses select the documented scope",
  "sentence/s, utterance/u, paragraph/p, turn/t, text and session each select their own scope and nothing else does; the within clause becomes the second part of a query-with-within root whose first part is the whole main query. A query without a within clause has no such root.",
  ["inputs"], "all ten scope keywords on any main query",
  "No sample contains a within clause.",
  [P, G4L], [("visitQuery, visitWithin_part_simple", P)], ["SimpleWithin.scope", "QueryWithWithin"])
p("P15", "Query node accessors answer as documented for every node and argument",
  "Child lookup by index or by (index, kind), first and last child, child count, query/within/expression/content/operand accessors and the has/is-empty predicates of expressions answer according to the node's actual children and fields; out-of-range or absent children give none, never an exception. Emptiness predicates are true exactly when nothing is set, and the predicates reject a missing argument with a type error.",
  ["inputs"], "every node, any index (also negative and past the end), any kind filter",
  "None of the accessors is called by a test.",
  [P], [("QueryNode.get_child and friends, Expression predicates", P)], ["QueryNode accessors", "Expression predicates"])
p("P16", "Visitors call the handler of the node's own kind and reach all children",
  "Visiting a node calls the visitor's handler for exactly that node's kind, for each of the twelve kinds, and returns its result; a visitor without a handler for the kind visits the children. The default handlers visit every child once, in order, honouring the overridable result and stop hooks; the node type of each node class is its own.",
  ["inputs", "programs"], "every node kind and every user-defined visitor",
  "Tests only run the bundled validator, which overrides a single handler.",
  [P], [("QueryVisitor.visit/visitChildren, QueryVisitorAdapter, node_type per class", P)], ["QueryVisitor", "QueryVisitorAdapter", "QueryNode.accept"])
p("P17", "The printed form of a tree shows its whole content",
  "The string form of a node names its kind and shows all semantic content: qualifier, layer, operator, value and flags of an expression, non-default bounds of segments and groups, scope of a within clause, all children in order, and the location when there is one; locations show start and stop, enumeration members their value. It depends on nothing else, so equal trees always print identically, independent of set ordering.",
  ["inputs"], "every tree", "No test prints a tree.",
  [P], [("__str__ of the node classes and enums, RegexFlag.char", P)], ["str(node)"])
p("P18", "Debug logging never changes a result",
  "Turning debug logging on or off changes nothing but log output: same trees, same errors, same exceptions, for parsing, visiting and validating.",
  ["inputs", "configurations"], "all inputs with logging enabled and disabled",
  "The suite runs with debug logging off, so none of the logging-only code is executed.",
  [P, V], [("LOGGER.isEnabledFor guards", P)], ["parse results", "QueryParser.errors"])
p("P19", "Results depend only on the arguments: no state leaks, inputs are not modified",
  "Parsing and validating keep no state outside the parser and validator objects used: package-level tables, class-level lists, default arguments and process-wide settings are never modified, a result never depends on earlier calls or on objects already gone, and separate parser or validator objects never share mutable state. Parsing leaves the parser's configuration alone, and validating, visiting, printing or querying a tree never modifies it.",
  ["histories", "schedules", "inputs"], "any history or interleaving of calls on any number of parser and validator objects",
  "Tests use fresh objects nearly everywhere and never compare shared state before and after.",
  [P, V, I], [("instance attributes created per object; no writes to globals, classes or visited nodes", P)], ["module tables", "QueryNode fields", "QueryParser fields"])
p("P20", "Layer identifiers are accepted, warned about or rejected as specified",
  "Without a custom list, the six FCS layers text, lemma, pos, orth, norm and phonetic pass silently, the legacy layer word and custom layers starting with x- give one warning, and every other layer identifier gives one error. With a non-empty custom list exactly its members pass silently and all others give one error.",
  ["inputs", "configurations"], "every identifier and every custom list",
  "A handful of identifiers is tested; no custom x- layer, and only one-element lists.",
  [V], [("FCSQLValidator.visit_Expression, KNOWN_LAYER_IDENTIFIERS", V)], ["errors", "warnings"])
p("P21", "Layer qualifiers are checked against the configured lists",
  "With a configured qualifier list, an expression that has a qualifier gives one error if its layer is not listed or is listed without qualifiers, one error if its qualifier is not among those listed for its layer, and none otherwise. Expressions without qualifier, or validators without such a list, give no qualifier error.",
  ["inputs", "configurations"], "every qualifier, layer and configuration, any position in the list",
  "Tests use lists with a single entry only.",
  [V], [("FCSQLValidator.visit_Expression qualifier block", V)], ["errors"])
p("P22", "Unqualified pos values outside the universal tag set give one warning",
  "A pos expression without qualifier and without regex flags whose value is none of the 17 Universal POS tags and contains no character special in regular expressions (blanks aside) gives exactly one warning; qualified, flagged, tagged or regex-like values give none, and no other layer is affected. The regex-likeness helper answers true exactly when escaping the value, blanks aside, would change it.",
  ["inputs"], "every value, qualifier and flag set", "Two tags and a few values are tested.",
  [V], [("FCSQLValidator.visit_Expression pos block, UNIVERSAL_POS_TAGS, is_likely_a_regex", V)], ["warnings"])
p("P23", "Validation verdict, lists and raising follow the configured mode",
  "In raising mode the first error (and the first warning if warnings count as errors) raises the validation error; in collecting mode all errors and warnings are recorded, in visiting order, in their own lists. The verdict is true exactly if no error, and no warning where warnings count as errors, was found; every validation starts from empty lists and replaces rather than alters earlier ones, and the boolean variant answers the same without raising.",
  ["inputs", "configurations", "histories"], "all mode combinations, any number of issues, any sequence of validations on one validator",
  "Few combinations with at most two issues are tested; reuse after an aborted validation is not.",
  [V], [("validate, is_valid, validation_error, validation_warning", V)], ["validate result", "errors", "warnings", "SpecificationValidationError"])
p("P24", "Validation issues carry the node's location and exactly its query text",
  "Every recorded error or warning and every raised validation error refers to the offending node: recorded issues carry its location and type, raised ones the node itself, and the fragment is exactly the query text of that location. Without location or query text there is no fragment; a query passed to a validation replaces the one given at construction.",
  ["inputs", "configurations"], "every issue at any position, with and without locations and query text",
  "Asserted for one-line single-expression queries in three places only.",
  [V], [("validation_error, validation_warning, validate", V)], ["ErrorDetail", "SpecificationValidationError"])
p("P25", "The one-call validation agrees with parse plus validate and with itself",
  "Validating a query string in one call answers true exactly when the same call asked for errors returns an empty list: a query that cannot be parsed or is nested too deeply gives false or at least one error, every diagnostic of the parse among them, otherwise the errors, plus the warnings if they count as errors, of the validator registered for the version. It raises only for an unknown specification version, and the default version is registered under its own number.",
  ["inputs", "configurations", "fault_sequences"], "every query string, version and mode combination",
  "Tests cover ten queries; failures of the tree builder, warnings as errors and deep nesting are not covered.",
  [I, V], [("fcsql.validate", I), ("VALIDATORS", V)], ["fcsql.validate"])
p("P26", "Validation visits every node exactly once and tracks the parent correctly",
  "A validation calls the handler of every node of the tree exactly once, in document order, whatever subset of handlers a validator overrides as documented. In each handler the tracked parent is the node's parent (none at the root), also when an earlier validation was aborted by an error; inherited handlers return what visiting the children gives.",
  ["inputs", "histories", "programs"], "every tree, every validator subclass, any history of aborted validations",
  "No test looks at the tracked parent, or at anything below the first expression other than two siblings.",
  [V, P], [("Validator.visit_* push/pop, reset in validate", V)], ["Validator.parent_node"])
p("P27", "The tokenizer implements the published lexical grammar of FCS-QL",
  "The tokens recognised, their types and their priority are exactly those of the lexer grammar shipped with the package, which is the FCS-QL 2.0 lexical grammar: the twenty-odd token kinds, string literals with their escapes, Unicode white space skipped. Token names and numbers agree between tokenizer, parser and the shipped token tables.",
  ["inputs", "programs"], "every input string",
  "Generated tables are only exercised along the sample queries.",
  [GL, G4L, "src/fcsql/FCSLexer.tokens", "src/fcsql/FCSLexer.interp"], [("serialized ATN of the lexer, token constants", GL)], ["FCSLexer"])
p("P28", "The parser implements the published grammar of FCS-QL, up to the end of input",
  "The parser's prediction tables and its recursive-descent code both implement exactly the rules of the parser grammar shipped with the package, which is the FCS-QL 2.0 grammar, and a query must match it from the first to the last token. No rule accepts a token sequence the grammar does not, or rejects one it accepts.",
  ["inputs", "programs"], "every token sequence, every rule",
  "Generated code and tables are only exercised along the sample queries.",
  [GP, G4P, "src/fcsql/FCSParser.tokens", "src/fcsql/FCSParser.interp"], [("serialized ATN of the parser and the generated rule methods", GP)], ["FCSParser"])
p("P29", "NOT binds tighter than AND, and AND tighter than OR",
  "Within a segment, negation applies to the smallest following operand, conjunction binds tighter than disjunction, and explicit parentheses override both. Between segments, a quantifier applies to the segment or group just before it, juxtaposition binds tighter than |, and a query that is a single segment or group is not itself wrapped into a sequence or disjunction.",
  ["inputs"], "every ambiguous operator combination",
  "No sample mixes operators, and none inspects the tree.",
  [G4P, GP], [("order of alternatives in the ambiguous rules", G4P)], ["tree shape"])
p("P30", "Words that double as keywords or flags stay usable as layer and qualifier",
  "Every word that is formed like an identifier can be used as layer identifier and as layer qualifier, also if it coincides with within, a scope keyword or a run of flag letters. Conversely every scope keyword and every run of flag letters is recognised as such where a scope or flags are expected, never swallowed as another token kind.",
  ["inputs"], "every identifier-shaped word, scope keyword and run of flag letters",
  "One such word (l) is among the samples, in one position.",
  [G4L, G4P, GL, GP], [("token priorities; alternatives of rules identifier, qualifier", G4P)], ["FCSLexer", "FCSParser"])
p("P31", "The low-level tree API dispatches to and finds the right rule everywhere",
  "For each of the 23 grammar rules, entering, leaving or accepting a parse-tree node of that rule invokes the listener or visitor callback of exactly that rule, and the generated default callbacks do nothing or visit all children. The accessors of each parse-tree node return exactly its sub-rules and tokens of the named kind, and parsing announces entering and leaving of every rule with its own index.",
  ["programs", "inputs"], "every rule, every user-defined listener or visitor",
  "Only callbacks the tree builder needs are exercised; listeners never are.",
  [GP, GLi, GVi], [("context classes of the generated parser, listener and visitor base classes", GP)], ["FCSParserListener", "FCSParserVisitor", "parse tree contexts"])
p("P32", "Parsing time stays proportional to query length",
  "Parsing a query of n tokens takes time bounded by a small polynomial in n for every query.",
  ["inputs"], "every query", "Samples are tiny.", [G4P, GP], [("adaptive prediction over the grammar", GP)], ["fcsql.parse"])
p("P33", "Canonically equivalent values give equal trees under normalisation",
  "Two queries that differ only in canonically equivalent Unicode spellings of a value give the same value in the tree when normalisation is on.",
  ["inputs"], "every pair of canonically equivalent strings", "No such pair is tested.", [P], [("unicodedata.normalize", P)], ["Expression.regex"])
p("P34", "Nesting depth alone never makes a grammatical query fail",
  "A grammatical query parses and validates whatever its nesting depth, as long as memory lasts.",
  ["inputs"], "every nesting depth", "Samples nest at most two levels.", [GP, P, V], [("recursive descent and recursive visiting", P)], ["fcsql.parse", "fcsql.validate"])
with open(__file__.rsplit("/", 2)[0] + "/properties.jsonl", "w") as f:
    for o in out:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
