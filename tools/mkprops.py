#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = ["logstash_config.peg", "logstash_config.go"]
H = "logstash_config_helper.go"

p("C01", "The parser accepts exactly the Logstash configuration language",
  "Parsing succeeds on a text if and only if the text is a configuration of the documented Logstash grammar (grammar.treetop) with the documented deviations: empty or comment-only files, comments that end at end of file and comments between hash entries are accepted; method calls and brackets inside a selector name are not; plugins as array elements or hash values, numbers outside the double range and invalid UTF-8 are rejected; an opened plugin or if/else block, literal, array or hash must be completed as such (no other reading of it is tried). Nothing outside that language is accepted and nothing inside it is rejected.",
  ["inputs"], "every byte string offered to the parser", "The unit tests parse about 60 hand-written files; the language is infinite and the PEG's order of alternatives, word boundaries and optional whitespace interact.",
  G + [H, "grammar.treetop"], [("PEG grammar and generated parser", "logstash_config.peg"), ("semantic actions that report errors", H)], ["error result of the parse entry points"])

p("C02", "The parsed tree is the structure the text denotes",
  "For every accepted text the returned tree contains exactly the sections, plugins, attributes, values, branches and conditions that the grammar derives from the text, in source order within each section kind, with names, literal text, quoting style, numeric values, operators and nesting exactly as written. Nothing is dropped, duplicated, merged or reordered.",
  ["inputs"], "every configuration the parser accepts", "Tests compare printed output of a few files; they never compare trees against an independent derivation, and printing hides losses.",
  [H, "logstash_config.peg", "ast/ast.go"], [("semantic actions building nodes", H), ("node constructors", "ast/ast.go")], ["tree returned by the parse entry points"])

p("C03", "Comments in regular places are attached to the right node",
  "Every comment that stands before a section, a plugin, a branch, an else-if or else block, an attribute, an array element or a hash entry, or before the closing bracket of a section, block, plugin, array or hash, or at the end of a non-empty file, is kept with its exact text (surrounding blanks trimmed) on that node (respectively as that container's footer), in source order and exactly once. Comments in other, exceptional places are dropped and never shift to a neighbour.",
  ["inputs"], "every accepted configuration with comments anywhere whitespace is allowed", "The fixtures place one comment in each place at once; they cannot cover combinations of places, blank lines, line endings and comment contents.",
  [H, "logstash_config.peg"], [("comment and comment-block actions", H)], ["comment fields of the returned tree"])

p("C04", "Formatting preserves the meaning of the configuration",
  "For every accepted text, the formatted output is accepted again and denotes the same sections, plugins, attributes, values, branches and conditions, with the same names, literal text, quoting style, operators and numeric values (to double precision), in the same order within each section kind. Only an empty else block without comments may disappear.",
  ["inputs"], "every configuration the parser accepts", "Round trips are only tested on a few documents that are already in canonical form; literals with quotes, slashes, brackets or newlines inside nested blocks are not tested.",
  ["ast/ast.go", "ast/ast_helper.go"], [("node printers", "ast/ast.go"), ("indentation of nested text", "ast/ast_helper.go")], ["printed tree, re-parsed"])

p("C05", "Formatting is idempotent",
  "Formatting the formatted output of any accepted configuration again yields byte-for-byte the same text.",
  ["inputs", "histories"], "every accepted configuration, any number of repeated format passes", "Identity is tested on about 25 canonical documents, not on the outputs reached from arbitrary inputs with comments, blank lines and section reordering.",
  ["ast/ast.go", "ast/ast_helper.go", H], [("node printers", "ast/ast.go"), ("blank-line flags of comments", H)], ["output of repeated format passes"])

p("C06", "Formatting keeps every regular comment with its node",
  "Formatting a non-empty configuration keeps every comment from a regular place exactly once, with its text unchanged, in front of (or as footer of) the same element as in the source, including the comments in front of second and later sections of the same kind.",
  ["inputs"], "every accepted, non-empty configuration with comments", "Only one or two comment fixtures exist; combinations of several sections, empty blocks, multi-line comments and quotes in comments are not reached.",
  ["ast/ast.go", "ast/ast_helper.go"], [("section printer", "ast/ast.go"), ("comment printer", "ast/ast.go")], ["comments of the printed tree, re-parsed"])

p("C07", "Node positions point at the source text of the node",
  "Every node of a parsed tree (sections, plugins, attributes, values, hash entries, branches and their blocks, expressions, operators, selectors and their elements) reports the byte offset where its own text begins in the source (a hash entry at its key, a named attribute at its name), and line and column are those of that offset, counted in lines and characters.",
  ["inputs"], "every accepted configuration and every node in it", "Position tests cover a handful of ASCII documents and skip several node kinds (numbers, arrays and hashes inside values and conditions).",
  [H, "ast/ast.go", "logstash_config.go"], [("position capture in semantic actions", H), ("rune reader", "logstash_config.go")], ["Pos of every node"])

p("C08", "Each exceptional comment place yields exactly one warning",
  "With exceptional-comment warnings enabled, a parse yields exactly one warning for each exceptional place (whitespace that is dropped by the tree) that contains a comment, in source order and naming the position where that whitespace starts; with the option disabled there is none. The option changes nothing else in the tree or the verdict, and backtracking neither loses nor duplicates warnings.",
  ["inputs", "configurations"], "every accepted configuration, option on and off", "One fixture counts warnings of one document; backtracking through the seven expression alternatives over the same whitespace is not varied.",
  ["logstash_config_options.go", H, "logstash_config.peg"], [("state that is rolled back on backtracking", "logstash_config.go"), ("warning action", H)], ["warnings of the returned configuration"],
  state=[("parser state store", "warnings collected on the current parse path", "logstash_config.go")])

p("C09", "Ignoring comments changes nothing but the comments",
  "With comments ignored, a parse gives the same verdict as without the option and returns the same tree with all comments removed and nothing else changed, so that its formatted output contains no comment at all and denotes the same configuration.",
  ["inputs", "configurations"], "every text, option on and off", "One fixture is compared with one expected file.",
  ["logstash_config_options.go", H], [("comment action", H)], ["tree and verdict with and without the option"])

p("C10", "Every rejected text yields a well-formed error and no crash",
  "For every rejected text the parser returns (never panics, never hangs) an error that names the given file name and a position inside that text whose line and column agree with its offset, and the farthest-failure report obtained afterwards, if any, refers to a position inside that same text. Parsing the same text again gives the identical error and report.",
  ["inputs"], "every byte string that is not a configuration, including truncations and corruptions of valid ones", "Tests check about 20 error messages; arbitrary truncations and corruptions at every offset are not explored.",
  ["parse_error_helper.go", "logstash_config.go"], [("panic recovery and error list", "logstash_config.go"), ("farthest failure bookkeeping", "parse_error_helper.go")], ["error value and farthest failure report"])

p("C11", "A parse does not depend on earlier parses",
  "The result of a parse (verdict, tree, positions, comments, warnings, error text and the farthest-failure report read right after it) depends only on its text, name and options: after any sequence of other parses, successful, failing or aborted, and of printing or transforming their trees, it equals the result in a fresh process. A tree already returned never changes because of later parses or because the caller reuses the input buffer.",
  ["histories"], "every sequence of parse, print and transform calls with any options", "Each test parses once and looks at that result only; state carried over through globals or pools is never exercised in sequence.",
  ["parse_error_helper.go", "logstash_config.go", H], [("reset at start of parse", H), ("state pool", "logstash_config.go")], ["results of parse call n in a history"],
  state=[("farthest failure list", "package-level list of potential errors", "parse_error_helper.go"), ("state pool", "recycled state maps", "logstash_config.go")])

p("C12", "Concurrent use gives the sequential results",
  "Concurrent parses of independent texts, and concurrent printing, traversal, quoting and (un)escaping of independent or shared read-only trees and values, each give exactly the result they give when run alone, for every interleaving, without panics, deadlocks or unsynchronised access to shared data. A farthest-failure report read concurrently is always an untorn report of failures, never a crash.",
  ["schedules"], "every interleaving of two or three concurrent library calls (within a preemption bound)", "The tests are single-threaded.",
  ["parse_error_helper.go", "logstash_config.go", H, "ast/ast.go", "ast/ast_helper.go", "ast/astutil/escape.go", "ast/astutil/quote.go"], [("package-level state", "parse_error_helper.go"), ("state pool", "logstash_config.go")], ["results of overlapping calls"],
  state=[("package-level variables", "shared between all calls", "all packages")])

p("C13", "Reading input: chunking is invisible and read errors surface",
  "Parsing from a reader or a file gives exactly the result of parsing the complete text in memory, however the reader splits the text into chunks, returns empty reads, or delivers data together with end of file, whatever kind of reader it is and from wherever it has got to, and with every option. If the reader fails at any point or the file cannot be opened or read, the parse returns that error and no configuration. Files that were opened are closed again.",
  ["fault_sequences", "inputs"], "every chunking of a text and every read fault position", "Tests only use in-memory readers that deliver everything at once.",
  ["logstash_config.go"], [("read everything, then parse", "logstash_config.go")], ["result of reader and file entry points"])

p("C14", "Plugin traversal visits every plugin once, also while editing",
  "Traversing a list of plugins and (nested) branches calls the callback exactly once for every plugin present before the traversal, in document order, and never for inserted or replacement nodes; whatever combination of replace, insert-before, insert-after (and a final delete) the callback applies, each operation acts on the visited plugin, and the returned list equals the list obtained by applying the same edits to an ordinary list, leaving conditions, comments and all other plugins untouched.",
  ["histories", "inputs"], "every tree shape and every sequence of cursor operations at each visited plugin", "Tests apply one operation to one plugin per traversal; combinations of operations and neighbours being edited together are not covered.",
  ["ast/astutil/apply.go"], [("cursor index and step arithmetic", "ast/astutil/apply.go")], ["callback order and returned list"],
  state=[("cursor", "index and step within the block being edited", "ast/astutil/apply.go")])

p("C15", "Unescape inverts Escape and both follow the escape table",
  "For every string, unescaping its escaped form gives back the string byte for byte; escaping replaces exactly carriage return, newline, tab, backslash, double and single quote and leaves every other byte (including non-ASCII and invalid UTF-8) alone, and unescaping replaces exactly the six documented two-character sequences, scanning left to right, and leaves every other backslash sequence alone.",
  ["inputs"], "all strings", "A table of seven strings.",
  ["ast/astutil/escape.go"], [("escape and unescape functions", "ast/astutil/escape.go")], ["function results"])

p("C16", "Quoting yields literals that read back as the quoted value",
  "When quoting succeeds, the result, used as an attribute value, parses as one string of the requested quoting style with exactly the given value, and quoting fails exactly when no such literal exists (an unescaped quote of the same kind, a trailing backslash, or a value that is no bareword). Quoting with escaping always yields a parseable literal of the requested style which reads back as the value with a backslash added in front of each unescaped quote of the same kind (barewords, two characters or longer: each character outside the bareword alphabet, and a leading digit, replaced by an underscore).",
  ["inputs"], "all valid UTF-8 values and all quoting styles (QuoteWithEscape: values not ending in a backslash, which no literal can express)", "Tests quote seven values with quotes in the middle of the text only.",
  ["ast/astutil/quote.go"], [("quote scan", "ast/astutil/quote.go")], ["function results, parsed back"])

p("C17", "A tree built through the API prints as the configuration it describes",
  "A tree built with the public constructors from valid names, literals, operators and comments prints as an accepted configuration that denotes exactly that tree: same sections, plugins, attributes, values, branches, conditions and comments, where nil plugins, branches, attributes, array elements and expressions are skipped. (In conditions, arrays that the language itself reads as a field selector are excepted.) Printing does not modify the tree and is deterministic.",
  ["programs", "inputs"], "every tree built from the public constructors", "Tests print about 40 hand-built trees and never parse them back.",
  ["ast/ast.go", "ast/ast_helper.go"], [("constructors and printers", "ast/ast.go")], ["printed text, re-parsed"])

p("C18", "Plugin id lookup finds the id or reports not-found",
  "Looking up a plugin's id returns the value of its first id attribute (name bare or quoted) if that is a string, an error that is not a not-found error if it has another type, and a not-found error if and only if there is no id attribute at all; nil attributes and ids inside nested values are never considered. The not-found test recognises such an error through any depth of wrapping and recognises no other error.",
  ["inputs"], "every list of attributes and every wrapping of errors", "A few attribute lists with one or two entries.",
  ["ast/ast.go", "ast/errors.go"], [("id lookup", "ast/ast.go"), ("not-found errors", "ast/errors.go")], ["return values"])

p("C19", "mustache check passes exactly the valid files and names the bad ones",
  "For every list of paths, the check command exits zero and prints no error if and only if every path is a directory or a readable file with a valid configuration; otherwise it exits non-zero and reports exactly one error per offending path (missing, unreadable or invalid), in order, each naming its path and describing that path's own problem. It never crashes and never writes to any file.",
  ["inputs", "histories"], "every sequence of paths to valid, invalid, missing and unreadable files and directories", "The command line tool has no tests at all.",
  ["internal/app/check/check.go", "internal/app/app.go", "internal/format/multierr.go"], [("per-file loop with error accumulation", "internal/app/check/check.go")], ["exit status, standard error, file system"])

p("C20", "mustache format prints or writes exactly the formatted files",
  "The format command handles its paths in order up to the first missing, unreadable or invalid one, skipping directories: it prints exactly the concatenated formatted configurations on standard output without writing any file, or with the write flag prints nothing and leaves in each handled file exactly that formatted text. At the first bad path it stops, exits non-zero with an error naming it, and leaves that file and all later ones untouched.",
  ["inputs", "histories", "configurations"], "every sequence of paths with and without the write flag", "The command line tool has no tests at all.",
  ["internal/app/format/format.go", "internal/app/format.go", "internal/app/app.go"], [("per-file loop", "internal/app/format/format.go")], ["exit status, output, file contents"])

p("C21", "mustache lint reports exactly the problems of each file",
  "Without auto-fix, the lint command reports, for each path in order, the error of a missing, unreadable or invalid file, one warning per exceptional comment place, exactly the plugins without usable id (name and position), and exactly the plugins whose id was already used earlier in the same file (input sections first, then filter, then output sections); plugins in all sections and nested branches count, codecs do not. It exits zero if and only if there is nothing to report, never crashes and never writes to any file.",
  ["inputs", "histories"], "every sequence of files", "The command line tool has no tests at all.",
  ["internal/app/lint/lint.go", "internal/format/multierr.go"], [("validator walk", "internal/app/lint/lint.go")], ["exit status, standard error, file system"])

p("C22", "mustache lint auto-fix adds unique ids and changes nothing else",
  "With auto-fix, exactly the plugins that have no id attribute get one, appended as a valid string whose value is unique among all ids of the file; apart from that the rewritten file is the formatted form of the original, and linting it again finds no missing id and changes no byte. Files that need no id, are invalid or cannot be read stay byte-for-byte unchanged, and remaining problems are still reported.",
  ["inputs", "histories"], "every sequence of files, run once and repeatedly", "The command line tool has no tests at all.",
  ["internal/app/lint/lint.go", "ast/astutil/apply.go"], [("validator walk and rewrite", "internal/app/lint/lint.go")], ["file contents before and after, exit status"])

p("C23", "In-place rewriting survives faults and never hides one",
  "If an in-place rewrite (format with write flag, lint with auto-fix) fails or is killed at any system call, the target file holds either its complete old or its complete new contents and no other file of the user is changed; whenever the new contents were not completely written, or formatted output could not be completely written to standard output, the command exits non-zero and reports an error.",
  ["crash_points", "fault_sequences"], "every system call of the command as failure or crash point", "No test injects a fault.",
  ["internal/app/format/format.go", "internal/app/lint/lint.go"], [("rewrite of the source file", "internal/app/format/format.go"), ("rewrite of the source file", "internal/app/lint/lint.go")], ["file contents, exit status after the fault"])

p("C24", "Parser options do not change the result they are not about",
  "Statistics, debug, recover, memoize, global-store, init-state and a sufficient expression limit never change verdict, tree, positions, comments or warnings, and combinations and order of options do not matter; an insufficient expression limit gives the expression-limit error and never another tree. Disabling recovery only turns aborts into panics, and allowing invalid UTF-8 only removes the encoding errors and keeps all bytes verbatim.",
  ["configurations", "inputs"], "every combination of options on every text, and every expression limit", "Tests use two options, one at a time.",
  ["logstash_config_options.go", "logstash_config.go"], [("option closures", "logstash_config_options.go")], ["results under option combinations"])

p("C25", "Formatted output has the canonical layout",
  "Formatted output consists of the input, filter and output sections in this order with two blanks of indentation per nesting level, one attribute, array element, hash entry or comment per line, a blank line between consecutive sections of the same kind and between consecutive plugins or branches, and a blank line before a comment that follows an attribute, element or block content; the lines of multi-line literals are reproduced without added or removed blanks. Two texts that differ only in insignificant whitespace and blank lines (not next to comments) format to identical output.",
  ["inputs"], "every accepted configuration", "Golden outputs exist for a few documents, none deeply nested or with mixed literals.",
  ["ast/ast.go", "ast/ast_helper.go"], [("node printers", "ast/ast.go"), ("indentation of nested text", "ast/ast_helper.go")], ["formatted text"])

p("C26", "Numbers keep their value through parsing and formatting",
  "Every number literal parses to the double nearest to its decimal value and prints as a number literal of the grammar (no exponent) that parses to the same double, for all magnitudes and precisions, in attributes, arrays, hashes, hash keys and conditions, and for numbers set through the API.",
  ["inputs"], "every number literal and every finite double", "Tests use five short numbers.",
  ["ast/ast.go", H], [("number printer", "ast/ast.go"), ("number action", H)], ["printed number, re-parsed"])

p("C27", "The effort of a parse is linear in the length of the text",
  "For every text, accepted or rejected, the number of expressions the parser evaluates (as its statistics report it, and as the expression limit counts it) is at most a constant times the length of the text: no nesting, repetition or mistake in a text makes the parser backtrack exponentially or go over the text again and again.",
  ["inputs"], "every text, in particular deeply nested, long and broken ones", "Tests parse short and shallow texts, on which exponential backtracking does not show.",
  ["logstash_config.go", "logstash_config.peg"], [("order of alternatives in the grammar", "logstash_config.peg"), ("expression counter and limit", "logstash_config.go")], ["number of evaluated expressions"])

p("C28", "The command line means what it says or is refused without effect",
  "Every command line that starts with a command is either understood - options in any documented form (long, short, with a value, repeated) and at any place before '--', everything else a path - and then has exactly the effect of that command with those options and paths, or prints the usage on request, or is refused with an error and a non-zero exit status. A line with an unknown command, an unknown option, a malformed option value or a malformed configuration file of the tool is refused; refused lines and requests for usage or version change no file, and a well-formed or missing configuration file of the tool changes nothing.",
  ["inputs", "configurations"], "every sequence of words on the command line, every configuration file of the tool", "The command line tool has no tests at all.",
  ["internal/app/app.go", "internal/app/format.go", "internal/app/lint.go", "internal/app/check.go", "cmd/mustache/main.go"], [("commands and options", "internal/app/app.go")], ["exit status, output, file system"])

p("C29", "Every node prints on its own as the text that denotes it",
  "Printing any single node of the tree of an accepted text (section content, plugin, branch, if, else-if and else block, condition, expression, operator, operand, selector and its elements, attribute, value, hash entry, key, comment) gives text that, put where such a node may stand, is read as exactly that node with its names, literals, quoting styles, operators, nested nodes and comments. Printing nodes does not change the tree.",
  ["inputs"], "every node of every accepted configuration", "Tests print whole configurations and a few hand-built nodes and never read the text of a part back.",
  ["ast/ast.go", "ast/ast_helper.go"], [("node printers", "ast/ast.go")], ["printed text of each node, read back"])

p("C30", "Trees are plain values: an edit changes what it addresses and nothing else",
  "A program may edit a tree - parsed, built with the constructors or returned by a traversal - by assigning to the exported fields of its nodes, appending to, truncating or replacing elements of its lists and comment blocks, and by SetBoolOperator. After every sequence of such edits, interleaved with printing, the tree is the earlier one edited in exactly these places: every other node, list, comment and position of this tree and of all other trees (also of trees of the same text or of equal constructor calls, made before or after) is unchanged, and the tree prints as what it is now, whatever was printed before.",
  ["histories", "inputs"], "every sequence of edits of every tree", "Tests edit one field of one tree, once, and never look at the rest of it or at another tree.",
  ["ast/ast.go", "logstash_config_helper.go", "ast/astutil/apply.go"], [("lists built by the parser's actions", "logstash_config_helper.go"), ("constructors, setters and printers", "ast/ast.go")], ["fields, accessors and printed text of all trees after each edit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
