#!/usr/bin/env python3
# Writes properties.jsonl from the table below (kept as one readable place to edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

PG = ["parse/parse.go", "parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go"]
prop("C01", "Parsing any text ends with a file or an error",
  "For every byte sequence handed to the parser, parsing terminates and returns exactly one of a rule file or a non-nil error. It never panics, never returns both and never returns neither. (The machine's resources are the limit: time grows faster than the text, and rules nested some hundred thousand levels deep exhaust the goroutine stack.)",
  ["inputs"], "every input text, well formed or not, including truncated and corrupted rules and bytes that are not UTF-8",
  "The tests only parse the 16 bundled rule files and 14 hand-written rules, all of them well formed; no test parses a malformed text at all.",
  PG, [("generated PEG parser with recover()", "parse/internal/parser/zparser.go: (*parser).parse"), ("result cast", "parse/parse.go: cast")],
  ["parse.String", "parse.Reader", "parse.File"])
prop("C02", "Exactly the documented rule language is accepted",
  "A text is accepted if and only if it is a sequence of rules in the documented grammar whose embedded expressions are Go expressions of the supported forms. Anything else - a truncated rule, stray or trailing text, a wrong delimiter, a character a name may not contain, an unsupported expression, bytes that are not UTF-8 - is rejected with an error. A condition is separated from the arrow behind it by layout. Inside an embedded Go expression Go's own layout rules apply.",
  ["inputs"], "every input text",
  "The tests contain no text that should be rejected, so a parser that silently skips or tolerates garbage passes all of them.",
  PG, [("grammar", "parse/rules.peg"), ("grammar table", "parse/internal/parser/zparser.go: g"), ("supported expression forms", "parse/internal/goexpr/parse.go: clearpos")],
  ["parse.String (accept or reject)"])
prop("C03", "A parsed rule says exactly what its text says",
  "For every accepted rule text, the parsed rule carries the binding, opcode and opcode alternatives (in order), type, auxint, aux, arguments (in order), ellipsis and trailing markers, condition, block and result exactly as written, each on the expression and side where it was written. Nothing is dropped, invented, merged or moved; an expression with a second type, auxint or aux is rejected. (A trailing comma in a Go call says nothing and leaves no trace.)",
  ["inputs", "programs"], "every combination of rule components, nested values, alternatives and names",
  "Fourteen example rules fix the expected tree for fourteen combinations of components; the combinations, nesting depths, operand orders and names are unbounded.",
  PG + ["ast/ast.go"], [("parser actions", "parse/internal/parser/zparser.go: onRule1, onSExpr2, onOp1, onOpAlt1, onCall1, ...")],
  ["the *ast.File returned by parse.String"])
prop("C04", "Layout and comments never change what is parsed",
  "Wherever blanks may separate the parts of a rule, any mixture of spaces, tabs, carriage returns, newlines and // comments may stand instead, and the parsed rules are the same; this includes the inside of a condition and the end of the text. Text inside a comment contributes nothing to any rule, whatever it contains. (Inside the argument list of a Go call the layout is Go's: there a newline may not stand before a comma or the closing parenthesis, and a comment may hold only what a Go comment may hold.)",
  ["inputs"], "every rule and every choice of layout at every place where layout is allowed",
  "The bundled files use a few fixed layouts; none has a comment inside a condition, a comment holding rule text between the parts of a rule, or a comment ending the file without a newline.",
  PG, [("Skip, Comment, EOL productions", "parse/rules.peg"), ("condition text clean-up", "parse/internal/parser/zparser.go: onCondition1")],
  ["parse.String on two layouts of the same rules"])
prop("C05", "Rules keep their order; none is lost or duplicated",
  "The rules parsed from a text consisting of several complete rules, one after another, are exactly the rules of each part parsed on its own, in source order. An empty text or one holding only layout yields no rules.",
  ["inputs"], "every pair (and list) of well-formed rules, whatever separates them",
  "The tests compare the number of rules with a line-based count on fixed files; they never compare which rules came out or in what order for arbitrary neighbours.",
  PG, [("File production", "parse/internal/parser/zparser.go: onFile1")],
  ["parse.String on a concatenation versus its parts"])
prop("C06", "Embedded Go expressions are kept whole",
  "For every accepted text, each embedded Go expression (auxint, aux, condition, call value) is kept whole: printing the parsed rule yields, for that expression, the same Go tokens in the same order as the source (a trailing comma and layout aside), and the parsed expression carries no source positions other than markers needed to represent a form. An expression the tool cannot represent is rejected rather than altered.",
  ["inputs"], "every Go expression of the supported forms in every place an expression may stand",
  "The bundled files contain only the expression shapes that were in use in the Go compiler in 2021; the golden files record whatever the printer printed, not what the source said.",
  ["parse/internal/goexpr/parse.go", "parse/internal/parser/zparser.go", "printer/printer.go"],
  [("position clearing", "parse/internal/goexpr/parse.go: clearpos"), ("expression printing", "printer/printer.go: goexpr")],
  ["parse.String then printer.Bytes, compared token by token with the source"])
prop("C07", "Syntax errors name the input and a place in it",
  "Every error for rejected text starts with the given input name (nothing if it is empty) followed by line, column and byte offset, as in name:line:column (offset). The offset lies within the text or at its end; the line is one more than the number of newlines up to and including the offset, and the column is the number of characters from the last of these newlines to the offset, so that the first character of a line has column 1 and the newline before it column 0.",
  ["inputs"], "every rejected text and every input name",
  "No test inspects any syntax error.",
  ["parse/internal/parser/zparser.go", "parse/parse.go"],
  [("position tracking", "parse/internal/parser/zparser.go: read, restore, failAt, addErrAt")],
  ["the error text returned by parse.Reader"])
prop("C08", "Read failures while parsing are reported",
  "If reading the input fails at any point - the file cannot be opened, or a read returns an error other than end of input after any number of bytes - parsing returns that error and no file. Delivering the same bytes in differently sized pieces never changes the result.",
  ["fault_sequences", "inputs"], "every point at which a read can fail and every way of splitting the input into reads",
  "The tests only read from strings and existing files, where reads never fail or come short.",
  ["parse/parse.go", "parse/internal/parser/zparser.go"],
  [("ParseReader / ParseFile", "parse/internal/parser/zparser.go: ParseFile, ParseReader")],
  ["parse.Reader with a faulty reader", "parse.File"])
prop("C09", "Printed rules parse back to the same rules",
  "For every rule file the parser accepts, printing it succeeds and parsing the printed text yields an identical rule file. Printing is therefore also stable: printing the re-parsed file gives the same bytes.",
  ["inputs", "programs"], "every accepted rule text",
  "The round-trip test covers the bundled files only; expressions such as a - -b, -(-x) written without parentheses, or a & ^b never occur in them.",
  ["printer/printer.go", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go", "ast/ast.go"],
  [("printer", "printer/printer.go: rule, sexpr, op, goexpr")],
  ["parse.String(printer.Bytes(f))"])
prop("C10", "The printer reports write failures",
  "If the writer handed to the printer returns an error at any point of the output, having accepted none, a part or all of that write, printing returns a non-nil error; if printing returns nil, the writer received exactly the complete text that Bytes returns. After the first failure nothing more is written. The same holds for printing to standard output.",
  ["fault_sequences", "programs"], "every rule tree and every position of the first failing write",
  "The tests only print to in-memory buffers, which never fail.",
  ["printer/printer.go"], [("sticky error", "printer/printer.go: printf, seterror, Fprint")],
  ["printer.Fprint with a faulty writer"])
prop("C11", "Expanding alternatives is element-wise and complete",
  "Expanding a rule whose alternations all have n entries (n > 1) yields exactly n rules in order; the i-th is the original rule with the i-th entry chosen in every alternation of both sides and everything else - bindings, types, auxint, aux, argument order, markers, condition, block - unchanged. A rule without alternations stays as it is, rules stay in order, and no expanded rule contains an alternation.",
  ["inputs", "programs"], "every rule tree: any nesting, any number of alternations on either side, any alternation width",
  "Three example rules with one alternation shape each; the bundled files are only checked not to yield fewer rules than before.",
  ["pass/alt.go", "ast/ast.go"], [("expansion", "pass/alt.go: expandrule, expandsexpr, expandopcodeparts, idx")],
  ["pass.ExpandAlternates"])
prop("C12", "Incompatible alternations are rejected, nothing half-done",
  "Expansion returns an error exactly when some rule of the file contains two alternations with different numbers of entries (each at least two), wherever in the rule they stand, or when part of a rule is missing; it never panics. On an error the file still holds its original rules, unchanged. (Of alternations with a single entry, which the rule language cannot write, only freedom from panics is promised.)",
  ["inputs", "programs"], "every rule file and every combination of alternation widths at every pair of places, in every rule of the file",
  "Five example mismatches, each in a file with that single rule; none looks at the file after the error.",
  ["pass/alt.go"], [("count resolution", "pass/alt.go: resolvecounts"), ("assignment after success", "pass/alt.go: ExpandAlternates")],
  ["pass.ExpandAlternates error and the file after it"])
prop("C13", "Expansion leaves its input intact and is idempotent",
  "Expanding a file replaces its rule list but modifies none of the original rules or values, so a caller holding them sees them unchanged. Expanding an expanded file changes nothing.",
  ["programs", "histories"], "every rule file; every repetition of the expansion",
  "The tests compare the expanded rules only; they never look at the original rules afterwards nor expand twice.",
  ["pass/alt.go"], [("cloning", "pass/alt.go: expandsexpr, expandrule")],
  ["the rules held before the call, and the results of a second call"])
prop("C14", "Tree traversal visits every node once, in source order",
  "Walking a tree (Walk, Inspect) calls the visitor on the file, each rule, each match and result value, each operator with its parts, and each argument, exactly once each, parents before children and siblings in source order, and skips exactly the subtrees of nodes for which the visitor declines. Contains reports true exactly when some node of the tree satisfies the predicate. Conditions, auxint and aux values are no nodes of the traversal.",
  ["programs", "inputs"], "every tree and every pattern of declining visitors",
  "No test calls Walk or Inspect directly; the rule predicates exercise it on five rules.",
  ["ast/walk.go"], [("Walk, Inspect, Contains", "ast/walk.go")],
  ["the sequence of visitor calls"])
prop("C15", "Rule predicates look at the whole rule",
  "Each predicate over rules (binding, type, aux, auxint, ellipsis, trailing) is true exactly when some expression of the rule, at any depth on the match or the result side, has that feature, and is not affected by any other feature.",
  ["programs", "inputs"], "every rule tree, every feature and every place in the tree where it can stand",
  "Five positive examples, one per predicate except auxint; no example where a predicate must be false.",
  ["rules/rules.go", "ast/walk.go"], [("predicates", "rules/rules.go: HasBinding, HasType, HasAux, HasAuxInt, HasEllipsis, HasTrailing")],
  ["rules.Has*"])
prop("C16", "Every generated script is well-formed SMT-LIB",
  "Whenever SMT generation succeeds, the output is a well-formed SMT-LIB 2.6 QF_BV script: every constant is declared exactly once, before its first use, with a legal symbol that is neither reserved nor a theory symbol; every term is well sorted; and it contains exactly one satisfiability check, after its assertion. This holds whatever names the rule uses for its variables, as far as the rule language allows them, placeholders included.",
  ["programs", "inputs"], "every rule for which generation succeeds, every variable name and every placement of placeholders",
  "The SMT generator has no tests at all.",
  ["smt2/generate.go", "smt2/ops.go"], [("declaration on first use", "smt2/generate.go: variable"), ("term building", "smt2/ops.go: Evaluate")],
  ["smt2.Generate output"])
prop("C17", "A generated script is unsatisfiable iff the rule is sound",
  "The script generated for a rule is unsatisfiable if and only if match and result compute the same value for every assignment of the rule's variables, where the integer operations wrap at the width their opcode names, constants have that width, and the boolean operations are the Boolean ones. Repeated variables denote the same value, different variables and each placeholder denote independent values.",
  ["programs", "inputs"], "every rule for which generation succeeds and all values of its variables at the full operand width",
  "The SMT generator has no tests; a wrong operator, swapped operand or wrong width would compile and pass everything.",
  ["smt2/ops.go", "smt2/generate.go"], [("operation table", "smt2/ops.go: buildoperations"), ("negated equivalence", "smt2/generate.go: generate")],
  ["smt2.Generate output, its meaning decided by an SMT solver"])
prop("C18", "SMT generation refuses what it cannot represent",
  "SMT generation returns an error and no output for every rule with a feature it does not model - a condition, block, binding, type, auxint, aux, ellipsis or trailing marker, an unexpanded alternation, an embedded Go expression, an unknown opcode, a wrong number of arguments, ill-typed operands or a variable used at two types - wherever in the rule that feature stands. It never ignores such a feature, and it succeeds on every well-typed rule over the modelled operations whose match is an expression.",
  ["programs", "inputs"], "every rule tree and every placement of an unmodelled feature",
  "The SMT generator has no tests.",
  ["smt2/generate.go", "smt2/ops.go"], [("feature checks", "smt2/generate.go: generate, sexpr"), ("type inference", "smt2/ops.go: Params, Evaluate")],
  ["smt2.Generate error"])
prop("C19", "The command writes the right file for every simple rule",
  "For a successful run over any list of rule files, the rules that have no condition, block, binding, type, aux, auxint, ellipsis or trailing marker are taken in order of the files and their rules, expanded, and numbered from zero; for each number whose rule can be generated, exactly one file NNNN.smt2 in the output directory (four digits or as many as the number needs) holds exactly that rule's generated script, and no other file is written. A rule that cannot be generated only leaves its number unused.",
  ["programs", "inputs", "configurations"], "every list of input files, every mixture of rules in them, every output directory",
  "The command has no tests.",
  ["cmd/ssarules/main.go"], [("load and filter", "cmd/ssarules/main.go: load"), ("numbering and writing", "cmd/ssarules/main.go: run")],
  ["the files written by the command"])
prop("C20", "The command fails loudly",
  "If any input file cannot be opened, read or parsed, or the alternations of one of its simple rules (those named in C19) are incompatible, or writing an output file fails, the command prints a message and exits with a non-zero status; input problems are detected before any output file is written. If it exits with status zero, every generatable rule's file was written completely.",
  ["fault_sequences", "inputs"], "every position of a bad input file in the list and every position of the first failing write",
  "The command has no tests and its failures are never provoked.",
  ["cmd/ssarules/main.go"], [("error propagation", "cmd/ssarules/main.go: run, load, main")],
  ["exit status, standard error and the files written"])
prop("C21", "Results do not depend on what ran before",
  "Parsing, printing, expansion, the rule predicates and SMT generation are functions of their arguments alone: the same input gives the same result whatever was processed earlier in the process, successfully or not, and whatever order maps iterate in. None of printing, predicates, traversal and SMT generation modifies the tree it is given.",
  ["histories", "inputs"], "every pair of inputs processed one after the other, in either order, with every map iteration order",
  "Every test processes each input once in a fixed order and never repeats a call after a failing one.",
  ["parse/internal/parser/zparser.go", "printer/printer.go", "smt2/generate.go", "smt2/ops.go", "pass/alt.go", "rules/rules.go"],
  [("per-call state", "newParser, newprinter, Generate")],
  ["results of repeated and interleaved calls"])
prop("C22", "The printer refuses what it cannot print",
  "Printing a tree that contains, anywhere, a missing value, operator, operator part or Go expression - an interface that is nil - or a Go expression of a form the printer does not know, returns a non-nil error. It never panics on such a tree and never returns success with that part left out. (Nil pointers inside an interface, and a selector without its name, are no trees anything in the repository builds; nothing is promised of them.)",
  ["programs"], "every tree with an unprintable part at any place",
  "Every tree printed by the tests comes from the parser and is fully printable.",
  ["printer/printer.go"], [("default cases", "printer/printer.go: node, value, op, oppart, goexpr")],
  ["printer.Bytes, printer.Fprint"])
prop("C23", "Dumps show the whole tree",
  "Dumping a node (Dump, Fprint, Print) writes the listing that go/ast.Fprint defines with nil fields left out: every exported field of every node below it that is not nil, with its name and value, in order of declaration and element by element, empty strings and false flags included, on numbered and indented lines; a node met a second time is given by the line it began on. The same tree always gives the same listing, Dump returns what Fprint writes, every failing write makes Fprint and Print return an error, and no tree makes them panic.",
  ["programs", "inputs", "fault_sequences"], "every tree, whatever its strings contain, and every position of the first failing write",
  "The dump functions are only called when a test has already failed; nothing looks at a listing.",
  ["ast/ast.go"], [("Fprint via go/ast", "ast/ast.go: Fprint, Dump, Print")],
  ["ast.Dump, ast.Fprint, ast.Print"])
prop("C24", "Calls may run at the same time",
  "Parsing (from a string, reader or file), printing, dumping, traversal, the rule predicates, expansion and SMT generation may run at the same time in one process, each call on inputs of its own; those that only look at a tree (all but expansion) may even share it. No two such calls touch the same memory without synchronisation when one of them writes it, and each gives what it gives alone.",
  ["schedules", "histories", "programs"], "every pair of calls at the same time, whatever was called before",
  "No test runs two calls at once, and the suite is not run under the race detector.",
  ["parse/internal/parser/zparser.go", "parse/parse.go", "parse/internal/goexpr/parse.go", "printer/printer.go", "ast/walk.go", "ast/ast.go", "rules/rules.go", "pass/alt.go", "smt2/generate.go", "smt2/ops.go"],
  [("no package-level state is written", "package-level variables of every package"), ("inputs are only read", "printer, walk, rules, smt2")],
  ["results of calls made at the same time"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
