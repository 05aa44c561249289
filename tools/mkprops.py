#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
B = "src/liboak/back/compiler/"
M = "src/liboak/middle/"
R = "runtime/src/"
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "state": state or [], "hook_needed": None}})
GEN = "the ~10 fixed grammars of tests/ sample a few operator combinations on a few dozen inputs"
p("C01", "Generated recognizers implement PEG semantics",
  "For every grammar the macro accepts, every rule and every input, the generated recognizer succeeds exactly when the PEG semantics of the rule does (ordered choice, greedy and possessive repetition, backtracking, zero-width predicates) and then stops at exactly the position PEG semantics prescribes. A well-formed grammar yields working code, never a compile error or a panic.",
  ["programs", "inputs"], "all well-formed grammars x all rules x all UTF-8 inputs",
  "The quantifier is over programs (grammars): " + GEN + ", so an operator that misbehaves only in a particular context (nested choice under a repetition inside a predicate...) is invisible to them.",
  [B + "choice.rs", B + "repeat.rs", B + "optional.rs", B + "syntactic_predicate.rs", B + "sequence.rs", B + "non_terminal.rs", "src/liboak/back/continuation.rs", "src/liboak/back/context.rs"],
  [("continuation-passing compilation with marks and restore", B + "mod.rs"), ("ordered choice and backtracking", B + "choice.rs"), ("greedy repetition", B + "repeat.rs"), ("predicates restore the stream", B + "syntactic_predicate.rs")],
  ["recognize_<rule>(state)"])
p("C02", "A parser and the recognizer of the same rule agree",
  "For every accepted grammar, rule and input, the generated parser and the generated recognizer of the rule agree: same success or failure, same final position, same farthest error position and same set of expected items. Building an AST never changes what is recognized or reported.",
  ["programs", "inputs"], "all well-formed grammars x all rules x all inputs",
  "The tests call only recognizers on data files; parser and recognizer go through different compilers (value constructors, shared continuations), whose agreement has to hold for every expression.",
  [B + "rule.rs", B + "mod.rs", "src/liboak/back/context.rs", B + "repeat.rs", B + "optional.rs", B + "spanned_expr.rs"],
  [("two compilers per expression", B + "mod.rs"), ("value constructors", "src/liboak/back/context.rs")],
  ["parse_<rule>(state)", "recognize_<rule>(state)"])
p("C03", "Parsers build the documented AST value",
  "For every accepted grammar, rule and input that matches, the value produced by the generated parser is the one the documentation prescribes: characters for `.` and classes, vectors for repetitions in reading order, options for `?`, flattened tuples without unit components for sequences, the value of the branch taken for a choice, `()` under predicates and unit ascriptions, and the result of semantic actions. Values built by an abandoned branch or iteration never leak into the result.",
  ["programs", "inputs"], "all well-formed and well-typed grammars x all matching inputs",
  "Existing tests check almost no AST: they check success/failure. Mis-ordered tuple components, lost or duplicated list items and leaked partial values only show in specific expression nestings.",
  [B + "sequence.rs", B + "choice.rs", B + "repeat.rs", B + "optional.rs", B + "semantic_action.rs", B + "spanned_expr.rs", B + "value.rs", "src/liboak/back/context.rs", M + "typing/depth.rs"],
  [("reverse naming of free variables", "src/liboak/back/context.rs"), ("tuple values", B + "value.rs")],
  ["data of the state returned by parse_<rule>"])
p("C04", "The inferred type of each rule follows the typing rules",
  "For every well-typed grammar, the return type of the generated parser of each rule is the type prescribed by the documented inference rules: tuples are flattened, invisible and unit components dropped and 1-tuples unwrapped, `Option`/`Vec` of an invisible type are invisible while `Option<()>` is kept, actions give their declared return type, ascriptions win, and choices take the common type of their branches. The generated parser has that type whatever the order in which rules are declared.",
  ["programs"], "all well-typed grammars",
  "Rule types depend on every nested sub-expression and on the rules called; tests/grammars/typing.rs fixes a handful of rules and never checks the types obtained.",
  [M + "typing/surface.rs", M + "typing/depth.rs", M + "typing/type_rewriting.rs", M + "typing/ast.rs", B + "rtype.rs"],
  [("bottom-up inference", M + "typing/surface.rs"), ("type rewriting", M + "typing/type_rewriting.rs"), ("top-down propagation of unit", M + "typing/depth.rs")],
  ["signature of parse_<rule>"])
p("C05", "Parsers of accepted grammars terminate on every input",
  "A grammar accepted by the well-formedness analysis (all rules being local to the grammar) never loops: on every finite input, every generated recognizer and parser returns after finitely many stream operations and with bounded recursion.",
  ["programs", "inputs"], "all accepted grammars (including arbitrary, untyped, recursive ones) x all inputs",
  "Termination quantifies over every accepted grammar and input; tests/grammars/well_formedness.rs is a list of commented examples that only documents the analysis.",
  [M + "analysis/well_formedness.rs", B + "repeat.rs", B + "non_terminal.rs"],
  [("well-formedness attributes, left recursion and repetition checks", M + "analysis/well_formedness.rs")],
  ["return of recognize_<rule> within a bounded number of stream operations"])
p("C06", "Well-formedness rejects exactly the ill-formed grammars",
  "A grammar is rejected by the well-formedness analysis exactly when it has left recursion without guaranteed consumption, a repetition over an expression that may succeed without consuming, a non-last choice branch that cannot fail, or an expression that can never succeed or that always succeeds without consuming anything (the empty literal excepted). The verdict depends neither on the order of the rules nor on which rule is entered first, and an error reported names a reason that applies, in the rule where it applies.",
  ["programs"], "all grammars, well-formed or not",
  "There is no compile-fail test in the repository at all; the analysis is a fixpoint over recursive rules, whose result must be right for every rule graph.",
  [M + "analysis/well_formedness.rs"],
  [("fixpoint over rule attributes", M + "analysis/well_formedness.rs")],
  ["compile-time acceptance of oak!{...}"])
p("C07", "Spans and ranges delimit exactly the text matched",
  "A span expression `.. e` yields the span of exactly the input matched by `e` followed by the value of `e`, and a range expression `... e` yields the pair of streams positioned at the start and at the end of the input matched by `e`, for every expression `e`, every nesting (repetitions, choices, options, actions) and every input; ranges on every stream, spans on the built-in ones and on those that implement the span traits.",
  ["programs", "inputs"], "all grammars with span/range operators x all inputs",
  "tests/grammars/stream_span.rs contains a few expressions and no assertion on the spans of nested or repeated operators.",
  [B + "spanned_expr.rs", M + "typing/depth.rs", "src/liboak/front/parser.rs", R + "str_stream.rs", R + "lib.rs"],
  [("marks around the spanned expression", B + "spanned_expr.rs"), ("span of a range of streams", R + "str_stream.rs")],
  ["Span/Range values inside the AST"])
p("C08", "Error reports give the farthest failure and all expected items",
  "After parsing any input with any rule of an accepted grammar, the error information kept in the result (in case of failure as well as of success) is the farthest input position at which a literal, a character class or `.` failed, together with exactly the set of items that failed there. Its textual form `line:column: unexpected ..., expecting ...` gives the correct line and column, a snippet of the following input and each expected item once.",
  ["programs", "inputs"], "all accepted grammars x all inputs (multi-line and multi-byte included)",
  "No test looks at error messages; the farthest failure is the maximum over every attempt of the whole parse history.",
  [R + "parse_state.rs", R + "str_stream.rs", B + "str_literal.rs", B + "character_class.rs", B + "any_single_char.rs"],
  [("error merging", R + "parse_state.rs"), ("line and column", R + "str_stream.rs")],
  ["ParseState fields", "Debug of ParseResult"])
p("C09", "Parse results classify full, partial and failed matches",
  "The state returned by a generated function is successful exactly when it carries data, and its result is a full match when the rule matched the whole input, a partial match (with the data and the error information) when input remains, and a failure otherwise. The current position never moves before the start of the parse, is always on a character boundary, never exceeds the input, and the farthest error lies within the input.",
  ["programs", "inputs"], "all accepted grammars x all rules x all inputs, states resumed in the middle of an input included",
  "Tests check the three outcomes on a few data files, never on states resumed mid-input nor for parsers with values.",
  [R + "parse_state.rs", B + "rule.rs"],
  [("result classification", R + "parse_state.rs")],
  ["into_result()", "is_successful()"])
p("C10", "Semantic actions are called when, and only when, documented",
  "In a parser, each time the operand of a semantic action whose value is needed succeeds, the action is called exactly once, in reading order, with one argument per component of the operand's value. Semantic actions are never called by recognizers, nor under predicates, unit ascriptions or ranges.",
  ["programs", "inputs"], "all accepted grammars with semantic actions x all inputs",
  "Calls are side effects of the generated code which no test observes; the right number of calls depends on every backtracking point.",
  [B + "semantic_action.rs", B + "mod.rs", M + "typing/depth.rs"],
  [("action compiled in the success continuation", B + "semantic_action.rs"), ("unit propagation disables actions", M + "typing/depth.rs")],
  ["trace of the calls received by user functions"])
p("C11", "Every accepted grammar compiles to the documented API",
  "For every grammar accepted by the macro whose semantic actions have matching signatures, the generated code compiles without any type, borrow, move or naming error and offers for each rule `r` the public functions `recognize_r` and `parse_r` with the documented signatures over the grammar's stream. This holds whatever the nesting of choices, repetitions, predicates, spans and actions, and whatever the stream type.",
  ["programs"], "all well-formed and well-typed grammars",
  "The code generator shares continuations through closures and moves values between scopes, so that validity of the emitted Rust code depends on each combination of operators; the tests compile about ten grammars.",
  ["src/liboak/back/context.rs", "src/liboak/back/continuation.rs", "src/liboak/back/name_factory.rs", B + "choice.rs", B + "mod.rs", B + "grammar.rs"],
  [("closures for shared continuations and free variables", "src/liboak/back/context.rs"), ("fresh names", "src/liboak/back/name_factory.rs")],
  ["rustc on the expansion of oak!{...}"])
p("C12", "Any macro input is accepted or cleanly diagnosed",
  "For every token sequence given to the macro, the macro either accepts it or reports at least one error message pointing into the macro call; it never crashes with an internal panic and never loops. Whatever it accepts is only rejected by the Rust compiler for reasons in what the user wrote in Rust (items, types, paths, undefined functions). Token sequences are those `syn` 1.0 can represent (no C string literals), of reasonable nesting.",
  ["inputs"], "all token sequences (valid grammars, mutated grammars, token soup)",
  "The macro input is an arbitrary token stream; no test feeds an invalid one.",
  ["src/liboak/front/parser.rs", "src/liboak/lib.rs", M + "mod.rs", M + "analysis/mod.rs", M + "typing/depth.rs"],
  [("recursive-descent front end", "src/liboak/front/parser.rs"), ("error status of each phase", M + "mod.rs")],
  ["rustc diagnostics"])
p("C13", "The surface syntax has the documented precedence and layout",
  "Suffix operators bind tighter than prefix operators, which bind tighter than ascription, sequence, span, semantic action and finally choice; adding redundant parentheses, changing whitespace, comments or line breaks, or writing a rule with a type annotation instead of an ascribed body does not change the meaning of a grammar. The next rule starts at the first `name =` or `name: type =`, and Rust items (starting with a keyword or an attribute) may be interleaved with the rules anywhere. Tokens which are not part of the syntax (unknown ones, operators repeated without parentheses or without operand), wherever they are put in a rule, make the macro refuse the grammar with an error.",
  ["programs", "inputs"], "all grammars x all equivalent presentations x all inputs",
  "Equivalence of presentations is a relation between pairs of programs; the tests have one presentation for each grammar.",
  ["src/liboak/front/parser.rs", "src/liboak/front/ast.rs"],
  [("one parsing function per precedence level", "src/liboak/front/parser.rs"), ("look-ahead for the start of a rule", "src/liboak/front/parser.rs")],
  ["types, values, positions and errors of both presentations"])
p("C14", "Literals and character classes match exactly the text they denote",
  "A character class matches one character exactly when the character belongs to the denoted set (single characters, inclusive ranges, a leading or trailing `-` standing for itself), and a literal matches exactly its unescaped text, for all Unicode characters and Rust string escapes; `.` matches exactly one character of any kind. Malformed classes (empty, misplaced `-`) are rejected.",
  ["programs", "inputs"], "all class and literal strings x all characters",
  "Sets of Unicode characters cannot be sampled by the two or three classes used in tests (`a-z`, `0-9`).",
  ["src/liboak/front/parser.rs", B + "character_class.rs", B + "str_literal.rs", B + "any_single_char.rs", R + "str_stream.rs", "src/liboak/ast.rs"],
  [("class parsing", "src/liboak/front/parser.rs"), ("class conditions", B + "character_class.rs"), ("prefix consumption", R + "str_stream.rs")],
  ["recognize_<rule> on each character"])
p("C15", "Names only link calls to rules",
  "Consistently renaming rules, permuting the declarations of rules, Rust functions and items, adding unused rules, moving a rule into another module's grammar and calling it by path, or importing variants with the names of the standard library (`None`, `Some`, `Vec`...) leaves types, values, positions and errors unchanged. Declaring a rule or a function twice, or calling a rule that exists nowhere, is an error.",
  ["programs", "inputs"], "all accepted grammars x renamings, permutations, additions and modularisations x all inputs",
  "It is a relation between two programs; tests compile each grammar once, with one order and one naming.",
  [M + "analysis/duplicate.rs", M + "analysis/resolve_non_terminal.rs", "src/liboak/ast.rs", "src/liboak/back/name_factory.rs", B + "non_terminal.rs", M + "typing/surface.rs"],
  [("name resolution", M + "analysis/resolve_non_terminal.rs"), ("duplicate detection", M + "analysis/duplicate.rs"), ("names of generated functions", "src/liboak/back/name_factory.rs")],
  ["observations of both programs"])
p("C16", "Lints are justified and suggest equivalent expressions",
  "Each warning about an unnecessary chain of operators points to an expression that really has the reported shape, and the rewriting it suggests recognizes the same inputs; each outermost direct chain of the documented list is reported, and a chain through a call to a rule is reported when the suggestion only rewrites the calling expression (`&(&e)`, `&(!e)`, `(e?)?`, `(e*)?`, `(e+)+`). Each grammar whose rule types are infinitely recursive gets the documented warning, unknown grammar attributes are warned about, and a grammar with none of these gets no warning.",
  ["programs", "inputs"], "all accepted grammars",
  "The test file of this lint is fully commented out; spurious or wrong suggestions only matter for shapes that tests do not contain.",
  [M + "analysis/useless_chaining.rs", M + "typing/depth.rs"],
  [("chain detection", M + "analysis/useless_chaining.rs"), ("recursive type warning", M + "typing/depth.rs")],
  ["warnings emitted by the macro"])
p("C17", "String streams obey the stream laws",
  "For every string and every sequence of operations on a string stream and its clones: items are the characters in order, consuming a prefix succeeds exactly when the remaining text starts with it (and otherwise changes nothing), `has_next` agrees with `next`, clones are independent, comparison follows positions, and locations, snippets and spans describe the position for any line ending and any multi-byte character. No operation panics.",
  ["inputs", "histories"], "all strings x all operation histories over several clones",
  "Unit tests use ASCII strings of three letters and one clone.",
  [R + "str_stream.rs", R + "stream.rs", R + "lib.rs"],
  [("byte offset into the shared string", R + "str_stream.rs")],
  ["Iterator, ConsumePrefix, HasNext, Ord, Location, CodeSnippet, StreamSpan"])
p("C18", "File-map streams behave like string streams",
  "For every source file, start offset and operation history, a stream over a file map observes the same characters, comparisons, locations and snippets as a string stream over the same text, and its spans are those of the string stream shifted by the start position of the file. Creating streams registers the start of each line of the file exactly once.",
  ["inputs", "histories"], "all file contents x start offsets x operation histories",
  "The only unit test reads one 4-character file with start offset 0 and no span.",
  [R + "file_map_stream.rs", R + "str_stream.rs"],
  [("delegation to the string stream", R + "file_map_stream.rs"), ("line registration", R + "file_map_stream.rs")],
  ["the stream traits", "lines registered in the file map"])
p("C19", "Parse states follow their protocol for every history",
  "For every legal sequence of operations on a parse state (reading, consuming prefixes, reporting errors, marking, restoring, succeeding, failing, extracting data, converting to a result), the state agrees with a simple model: restoring goes back to the mark while keeping the farthest error and its expected items, errors at an earlier position are ignored, at the same position accumulated and at a farther position replace the previous ones. Illegal uses (marking a failed state, restoring a state holding data or one that did not fail, extracting data from a failed state) are refused.",
  ["histories"], "all operation histories of a parse state",
  "There is no unit test of this module; each generated parser exercises one particular history.",
  [R + "parse_state.rs"],
  [("immutable transitions of the state", R + "parse_state.rs")],
  ["fields and methods of ParseState"])
p("C20", "Parsers behave the same on every conforming stream",
  "A grammar compiled for a user-defined stream that implements the stream traits behaves on each input exactly as the same grammar compiled for the default string stream: same outcome, positions, values, spans and error reports. This holds for streams started in the middle of a text and for a state on which another rule has already run.",
  ["programs", "inputs", "configurations"], "all accepted grammars x conforming streams x inputs",
  "Only one test grammar redefines the stream and it is not compared with the default one.",
  ["src/liboak/back/context.rs", "src/liboak/ast.rs", M + "mod.rs", R + "stream.rs", B + "spanned_expr.rs"],
  [("stream alias and generic parameters of the generated functions", "src/liboak/back/context.rs"), ("redefinition of the stream", M + "mod.rs")],
  ["observations on each stream"])
p("C21", "Algebraic laws of PEG hold for generated recognizers",
  "Replacing a sub-expression by a PEG-equivalent one (associativity of sequence and choice, `e+` by `e e*`, `&e` by `!!e`, distribution of a common prefix over a choice, a sub-expression by a call to a rule with that body, `e?` by `e / \"\"`) does not change what is recognized, where it stops, nor the farthest error and its expected items.",
  ["programs", "inputs"], "all accepted grammars x rewritings x inputs",
  "Metamorphic relation between pairs of programs, which no test contains.",
  [B + "choice.rs", B + "sequence.rs", B + "repeat.rs", B + "optional.rs", B + "syntactic_predicate.rs", "src/liboak/back/context.rs"],
  [("compositional compilation", B + "mod.rs")],
  ["observations of both programs"])
p("C22", "Ill-typed grammars are rejected with an error",
  "A grammar in which the branches of a choice whose value is needed have different types, in which a rule's type cannot be inferred, in which an ascription contradicts the inferred type (ascriptions to Rust types being only meant for actions, external rules and expressions of Rust type), or in which a semantic action returns unit is rejected at macro expansion with an error, and a grammar free of these faults is never rejected for its types.",
  ["programs"], "all grammars, well-typed or not",
  "There is no compile-fail test; whether a branch's value is needed depends on its whole context.",
  [M + "typing/type_rewriting.rs", M + "typing/surface.rs", M + "typing/depth.rs", M + "typing/ast.rs"],
  [("unification of branches", M + "typing/type_rewriting.rs"), ("ascription check", M + "typing/depth.rs"), ("action types", M + "typing/ast.rs")],
  ["compile-time acceptance of oak!{...}"])
p("C23", "Expansion and parsing are deterministic",
  "Expanding the same grammar twice, in different processes or before and after other grammars, gives the same code and the same diagnostics in the same order; running the same rule twice on the same input gives identical results, values, errors and messages, independently of what was parsed before.",
  ["programs", "histories"], "all grammars x repeated expansions and runs",
  "A single build and run per grammar cannot show a difference between two.",
  ["src/liboak/ast.rs", "src/liboak/back/context.rs", M + "analysis/well_formedness.rs", R + "parse_state.rs"],
  [("ordered collections", "src/liboak/ast.rs")],
  ["expanded code, diagnostics, observations"])
p("C24", "Realistic grammars round-trip printed data",
  "For the grammars of the book and tests (the calculator language, JSON and similar ones), parsing the text printed from any syntax tree yields that tree back, whatever the spacing used, with the precedence and associativity the grammar encodes; damaged text is rejected at the damage or accepted consistently with a hand-written parser.",
  ["inputs"], "all syntax trees x spacings x damages",
  "Tests contain a few sample files per grammar and do not look at the trees built.",
  ["src/liboak/lib.rs", "doc/src/full-calc-grammar.md", "tests/grammars/json.rs", "tests/grammars/calc.rs", B + "semantic_action.rs", B + "choice.rs"],
  [("the whole pipeline", "src/liboak/lib.rs")],
  ["AST of the generated parsers"])
p("C25", "The cost of a grammar is in proportion to its size",
  "The expansion of a grammar ends and the code generated grows in proportion to the grammar: nesting an expression in itself some levels deeper, or adding rules that call the next one from several places, multiplies neither the code (the continuation of a choice, an optional or a repetition is not copied in each branch) nor the time of the analyses for each additional level.",
  ["programs"], "all accepted grammars x number of levels",
  "A relation between the expansions of a family of programs; tests expand single small grammars and never look at the size of the code.",
  [B[:-len("compiler/")] + "context.rs", B[:-len("compiler/")] + "mod.rs", B + "choice.rs", M + "analysis/well_formedness.rs", M + "analysis/useless_chaining.rs", M + "typing/surface.rs"],
  [("success continuation shared through a closure", "src/liboak/back/context.rs"), ("each rule visited once", M + "analysis/well_formedness.rs")],
  ["expanded code, end of the expansion"])
p("C26", "A parse does the work of its PEG evaluation, on inputs of any length",
  "For every accepted grammar, rule and input, the parser and the recognizer generated do a number of operations on the stream in proportion to the steps of the PEG evaluation of the rule on that input: no part of the input is read again without the grammar saying so (no multiplication at each nesting or recursion), and a repetition runs in constant stack, whatever the number of items.",
  ["programs", "inputs"], "all accepted grammars x inputs, short, recursive and very long",
  "A test sees results; a parse done twice gives the same results, and only costs exponentially more as the input nests; no test repeats an item thousands of times.",
  ["src/liboak/back/context.rs", B + "repeat.rs", B + "choice.rs", B + "non_terminal.rs", B + "syntactic_predicate.rs", R + "parse_state.rs"],
  [("loop of repetitions", B + "repeat.rs"), ("branches tried once", B + "choice.rs"), ("parser or recognizer of the rule called once", B + "non_terminal.rs")],
  ["operations on the stream (a counting stream given by the user)", "end of the parse"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
