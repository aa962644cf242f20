CCP = "static analysis: interprocedural path-sensitive constant/finite-set propagation (abstract interpretation) over the SSA form of /repo's current source"
PROPS = []
def P(**k): PROPS.append(k)
S = 'typst/syntax/'

P(id='T01', title='Operators: token, precedence, associativity and spelling agree with Typst',
  statement="Every operator token of the language (+ - * / and or not == != < <= > >= = in, not in, += -= *= /=) is recognised as its own operator and no other token is; each operator has the precedence (1 assignment, 2 or, 3 and, 4 comparison/in/not, 5 additive, 6 multiplicative, 7 sign), associativity (right only for assignments) and printed spelling of the Typst language. The operator reported for a unary or binary expression is the one of the operator token among its children, wherever the operands, whitespace or comments lie.",
  quant="all syntax kinds and all operators, all placements of trivia and of operands that are operator expressions themselves",
  why="the existing tests contain no operator expression besides a few highlighting samples",
  files=[S+'ast.go', S+'ast_node.go', S+'set.go'],
  mech=[('token to operator mapping', 'ast.go BinOp_from_kind, UnOp_from_kind'), ('precedence and associativity tables', 'ast.go precedence, assoc'), ('operator token sets', 'set.go BinaryOpSet, UnaryOpSet'), ('operator accessors', 'ast_node.go Unary.op, Binary.op')],
  tech=CCP, note="exhaustive over the operator tables and token sets; operator accessors over listed child shapes; the shape of parse trees is not part of this check")

P(id='T02', title='Syntax kinds are classified, named and collected into token sets as specified',
  statement="Each syntax kind has its own human-readable name, and is classified as grouping, block, statement, keyword, trivia, terminator or error exactly as in the Typst language. The token sets that steer the parser contain exactly the kinds the grammar allows at that place, and set operations (union, add, remove, membership) behave as mathematical sets for every kind.",
  quant="every syntax kind, every predicate and set, every combination of set operands for membership",
  why="tests touch three kinds of a small ad hoc set; there are 134 kinds, 7 predicates and 12 sets",
  files=[S+'kind.go', S+'set.go'],
  mech=[('kind predicates and names', 'kind.go'), ('token sets', 'set.go'), ('set operations', 'set.go SyntaxSet')],
  tech=CCP, note="exhaustive over kinds, predicates and sets; set operations on symbolic operands decided by finite-set dataflow")

P(id='T03', title='A node converts to a typed view exactly if its kind is the kind of that view',
  statement="For every syntax node and every typed view of the AST (expressions, arguments, parameters, array and dictionary items, patterns and all single node types) the conversion succeeds exactly if the node's kind belongs to that view, never panics, and the view refers to that very node. Finding the first or last child of a view type yields the first or last child that converts, if there is one. An expression is embeddable in markup or a literal exactly as in the Typst language.",
  quant="all pairs of a syntax kind and a view, leaf/inner/error nodes, child lists with other nodes and errors around",
  why="the tests convert a handful of nodes; there are 91 views times 134 kinds",
  files=[S+'ast_node.go', S+'ast.go', S+'node.go'],
  mech=[('conversions', 'ast_node.go from_untyped/to_untyped'), ('generic casts', 'node.go SyntaxNode_cast, _cast_first, _cast_last, _try_cast_first, _try_cast_last'), ('expression classes', 'ast.go Expr_hash, Expr_is_literal')],
  tech=CCP, note="exhaustive over kinds and views; first/last casts over listed child shapes per instantiation")

LEX = "static analysis: path-sensitive abstract interpretation of the lexer's SSA form over a character-class domain; the resulting table (text class to token) is compared with a reviewed table of the language's lexical rules"
LEXN = "decided for all texts whose first characters (unit table in check_lexer.go: 4 to 10 characters from the cursor, 0 or 1 before it) belong to the listed classes; text beyond is arbitrary. Longer tokens are covered up to that bound."
L = S+'lexer.go'
P(id='T04', title='Code mode splits text into the tokens of the language',
  statement="In code mode every text is split at each position into the token the Typst lexical grammar prescribes: operators and punctuation by longest match (so that e.g. `=>` is an arrow, `==` a comparison, `..` a spread, `+=` an assignment operator), identifiers by the identifier rules (letters, digits, `_`, `-`), keywords exactly for the keyword spellings, `none`/`auto`/booleans as literals, `<name>` as label, whitespace and comments as trivia with the newline flag telling whether a line was ended, and everything else as an error token with the documented message.",
  quant="all characters at each of the first six positions of the remaining text and the character before it",
  why="tests lex a handful of snippets",
  files=[L], mech=[('code tokens', 'lexer.go Lexer.code, ident, keyword'), ('identifier classes', 'lexer.go isIdent, is_id_start, is_id_continue')],
  tech=LEX, note=LEXN)
P(id='T05', title='Markup mode splits text into the tokens of the language',
  statement="In markup mode every text is split at each position into the token the Typst lexical grammar prescribes: `*` and `_` are markers only outside of words, `=`, `-`, `+`, `/` are heading, list, enum and term markers only if followed by white space or the end, `#` starts code, `$` math, brackets and the colon stand alone, `\\` is a line break or escape, `~`, `-?`, `--`, `---`, `...` are shorthands, quotes are smart quotes, `<name>` labels, `@name` references, links, raw text and comments are recognised, white space with at least two line ends is a paragraph break; everything else is text, broken only where one of those may start.",
  quant="all characters at each of the first four positions of the remaining text and the character before it",
  why="tests lex a handful of snippets",
  files=[L], mech=[('markup tokens', 'lexer.go Lexer.markup'), ('white space', 'lexer.go whitespace')],
  tech=LEX, note=LEXN)
P(id='T06', title='Math mode splits text into the tokens of the language',
  statement="In math mode every text is split at each position into the token the Typst lexical grammar prescribes: shorthands by longest match (`->`, `=>`, `!=`, `<=`, `:=`, `[|`, `|]` and all others), attachment and fraction signs, `&`, `!`, primes (a run of them is one token), identifiers of two or more letters with field accesses, single letters and numbers as text, escapes, strings and `#` code; named and spread arguments are told apart from ordinary text.",
  quant="all characters at each of the first six positions of the remaining text and the character before it",
  why="tests lex a handful of snippets",
  files=[L], mech=[('math tokens', 'lexer.go Lexer.math, math_ident_or_field'), ('argument look-ahead', 'lexer.go maybe_math_named_arg, maybe_math_spread_arg')],
  tech=LEX, note=LEXN)
P(id='T07', title='Numbers are lexed as integers, floats or numerics, or rejected',
  statement="A number starts with a digit or with `.` followed by a digit. Digits with an optional fraction and exponent form a float, plain digits an integer, prefixes 0b, 0o, 0x integers in that base, and a following known unit (pt, mm, cm, in, deg, rad, em, fr, %) a numeric. An unknown suffix, digits foreign to the base, or a fractional/unit suffix on a based number is an error with the documented message; `1..2` is not a fraction, and `1.foo` a field access.",
  quant="all characters at each of the first six or seven positions, after fixed starts",
  why="tests lex a handful of numbers",
  files=[L], mech=[('numbers', 'lexer.go Lexer.number')],
  tech=LEX, note=LEXN)
P(id='T08', title='Raw text, strings, comments, escapes, labels, references and links end right',
  statement="Raw text ends at as many backticks as it began with and is split into delimiters, language tag, lines and trimmed indentation; strings end at the first quote that is not escaped; block comments nest; line comments end before the line end; `\\u{...}` escapes must hold a valid code point; labels and references consist of valid label characters, references not ending in `.` or `:`; links end at the first character no URL may hold, with balanced brackets. Unterminated or invalid ones yield the documented error. All line terminators of Unicode count as one line end each, CR LF as a single one.",
  quant="all characters at each of the listed positions after the opening characters",
  why="tests lex a handful of snippets",
  files=[L], mech=[('raw text', 'lexer.go raw, blocky_raw, inline_raw'), ('strings, comments, escapes', 'lexer.go string, block_comment, line_comment, backslash'), ('labels, references, links', 'lexer.go label, ref_marker, link, link_prefix'), ('line ends', 'lexer.go isNewline, count_newlines, split_newlines, eat_newline')],
  tech=LEX, note=LEXN)
P(id='T09', title='Text runs, word boundaries, list numbers and columns are found right',
  statement="A run of markup text extends to the next character that may start another token and no further: a single space, `-`, `.`, `h`, `:`... belong to the text unless they start one. A position is inside a word exactly if both neighbouring characters are word characters of a script that separates words. Digits followed by `.` and white space are a list number. The column of a position is the number of characters since the last line end.",
  quant="all characters at each of the first four or five positions",
  why="tests lex a handful of snippets",
  files=[L], mech=[('text runs', 'lexer.go Lexer.text'), ('word boundary', 'lexer.go in_word'), ('list numbers', 'lexer.go numbering'), ('column', 'lexer.go Lexer.column')],
  tech=LEX, note=LEXN)
P(id='T10', title='Lexing is lossless: each token is exactly the text it consumed',
  statement="In every mode the node of each token holds exactly the text between the token's start and the position where the next one starts, also if the token is an error or a raw text with inner structure; tokens are never empty and end at character boundaries; the end is reported exactly at the end of the text; the kind reported for a token is the kind of its node; lengths, node counts and error flags of structured tokens agree with their parts; no error message carries over to the next token.",
  quant="all characters at each of the first four to ten positions of the remaining text, in the three modes",
  why="tests lex a handful of snippets",
  files=[L, S+'node.go', 'internal/scanner/scanner.go'], mech=[('token loop', 'lexer.go Lexer.next'), ('structured raw text', 'lexer.go raw'), ('text access', 'scanner.go From, Get')],
  tech="static analysis: path-sensitive abstract interpretation of the lexer's SSA form over a character-class domain; the consumed range and the node's text are compared symbolically", note="same bounds as the other lexer checks; no reference table is involved")

PAR = "static analysis: path-sensitive abstract interpretation of each parser function's SSA form over symbolic token kinds and abstract parser state; the sequence of parser actions per path condition is compared with a reviewed summary of the grammar"
PARN = "every path of each listed function, loops up to three iterations (two in math); other grammar functions and parser primitives appear as named actions, and are decided on their own"
Q = S+'parser.go'
P(id='T11', title='Markup is parsed by the grammar of the language',
  statement="The source, content blocks, headings, strong and emphasised text, references, list, enum and term items and equations are parsed as the Typst grammar prescribes: each construct consumes exactly its tokens in its lexer and newline mode, produces one node of its kind, nests and ends where the grammar says (headings and items at the line end or by indentation, emphasis at a paragraph break, blocks at the balanced bracket), and every token that may not occur is reported as an error with the documented message. Markup re-parsed for an edited range follows the same rules and stops at the same places.",
  quant="all token sequences, up to three elements per loop", why="tests parse a handful of snippets",
  files=[Q], mech=[('markup', 'parser.go Parse, markup, markup_exprs, markup_expr, strong, emph, heading, list_item, enum_item, term_item, reference, equation, content_block'), ('partial parse', 'parser.go reparse_markup')],
  tech=PAR, note=PARN)
P(id='T12', title='Math is parsed by the grammar of the language',
  statement="Math is parsed as the Typst grammar prescribes: attachments, primes, fractions, roots, factorials, implicit multiplication and function calls bind with the documented precedence and associativity; delimiters match by character class; parentheses are removed exactly around fraction, root and attachment operands; function arguments are split at commas and semicolons into positional, named, spread and two-dimensional array arguments, each as one math node; malformed math yields the documented errors.",
  quant="all token sequences, up to two elements per loop, all character classes", why="no existing test parses math beyond highlighting samples",
  files=[Q], mech=[('math', 'parser.go math, math_exprs, math_expr_prec, math_delimited, math_unparen, math_args, math_arg'), ('character classes', 'parser.go math_class')],
  tech=PAR, note=PARN)
P(id='T13', title='Code and expressions are parsed by the grammar of the language',
  statement="Code blocks, embedded code, statement sequences and expressions are parsed as the Typst grammar prescribes: unary and binary operators by precedence climbing with their associativity, `not in`, field access and calls only when directly attached, closures with `=>`, atomic expressions in markup limited to postfix forms, statements separated by a line end or semicolon, each primary expression introduced by its token; every unexpected token is reported with the documented error. Blocks re-parsed for an edited range follow the same rules.",
  quant="all token sequences, up to three elements per loop", why="tests parse a handful of snippets",
  files=[Q], mech=[('code', 'parser.go code, code_exprs, code_expr_prec, code_primary, embedded_code_expr, block, code_block'), ('partial parse', 'parser.go reparse_block')],
  tech=PAR, note=PARN)
P(id='T14', title='Statements are parsed by the grammar of the language',
  statement="let, set, show, context, if/else, while, for, import, include, break, continue and return are parsed as the Typst grammar prescribes: their parts in order, with optional parts (initialiser, condition, selector, alias, import items, value) recognised exactly where allowed, destructuring where allowed, each missing part reported with the documented error, and the node wrapping exactly the statement.",
  quant="all token sequences, up to three elements per loop", why="tests parse a handful of snippets",
  files=[Q], mech=[('statements', 'parser.go let_binding, set_rule, show_rule, contextual, conditional, while_loop, for_loop, module_import, import_items, module_include, break_stmt, continue_stmt, return_stmt')],
  tech=PAR, note=PARN)
P(id='T15', title='Arrays, dictionaries, arguments, parameters and patterns are parsed right',
  statement="A parenthesised form is an expression, array, dictionary, parameter list or destructuring pattern exactly as the Typst grammar prescribes (by its items, trailing comma, `:` and the following `=>` or `=`), and is parsed by exactly one of those readings with backtracking in between. Items are positional, named, keyed or spread; duplicate keys, names, bindings and sinks, missing or misplaced items, commas and closing delimiters are reported with the documented error, and nothing else is.",
  quant="all token sequences, up to three items", why="tests parse a handful of snippets",
  files=[Q], mech=[('parenthesised forms', 'parser.go expr_with_paren, parenthesized_or_array_or_dict, array_or_dict_item'), ('arguments and parameters', 'parser.go args, arg, params, param'), ('patterns', 'parser.go pattern, destructuring_or_parenthesized, destructuring_item, pattern_leaf')],
  tech=PAR, note=PARN)
PRI = "static analysis: path-sensitive abstract interpretation of the parser primitives' SSA form over symbolic parser states and small concrete node lists; outcomes compared with reviewed summaries"
P(id='T16', title='The parser sees each token once, with trivia and line ends handled by mode',
  statement="The parser consumes the lexer's tokens in order, each exactly once, keeping every trivia token as a node before the token it precedes; in markup the trivia are tokens themselves. A line end ends the current construct exactly if the newline mode says so (never, at every line end, at a paragraph break, except before `else` or `.`, or outside a column); then the token is replaced by the end marker while its text is kept. Switching lexer or newline modes re-reads the current token in the new mode and restores the old mode afterwards. Finishing yields all nodes.",
  quant="all token kinds, modes, newline modes and trivia runs up to three tokens", why="tests parse a handful of snippets",
  files=[Q], mech=[('tokens', 'parser.go Parser.lex, NewParser, finish, finish_into'), ('modes', 'parser.go enter_modes, with_nl_mode'), ('newline modes', 'parser.go AtNewline_*.stop_at')],
  tech=PRI, note="every path with up to three trivia tokens; the newline modes are found as the implementers of the interface")
P(id='T17', title='Nodes are wrapped and errors placed and recovered as specified',
  statement="Wrapping from a marker turns exactly the nodes since the marker, without the trivia after the last one, into one inner node; eating appends the current token; an expected-token error is placed after the last node before trailing trivia and only if no error stands there already; an unexpected token becomes an error node and follows trimming of the errors before it; hints attach to the last error; a missing closing delimiter turns the opening one into an error. No node is lost, duplicated or reordered by any of these.",
  quant="all markers and node lists of up to four nodes of trivia, error and other kinds", why="tests look at few error positions",
  files=[Q], mech=[('primitives', 'parser.go wrap, eat, eat_and_get, convert_and_eat, flush_trivia'), ('errors', 'parser.go expected, expected_at, unexpected, hint, expect, expect_closing_delimiter, trim_errors')],
  tech=PRI, note="every path over node lists of up to four symbolic nodes")
P(id='T18', title='Backtracking restores the parser exactly, and memoised results are replayed',
  statement="A checkpoint records the number of nodes, the lexer position, the current token and the modes; restoring it makes the parser continue exactly as if nothing after the checkpoint had been parsed. The nodes parsed since a position are stored under that position with the state reached, and asking for that position again appends exactly those nodes and continues in that state; a position never stored restores the checkpoint.",
  quant="all parser states; node lists up to four nodes", why="the existing tests hardly backtrack",
  files=[Q], mech=[('backtracking', 'parser.go checkpoint, restore'), ('memo', 'parser.go memoize_parsed_nodes, restore_memo_or_checkpoint, NewMemoArena')],
  tech=PRI, note="every path over node lists of up to four symbolic nodes")

STR = "static analysis: path-sensitive abstract interpretation of the function's SSA form on listed argument structures with symbolic texts, kinds, numbers and spans; result and final memory per path condition are compared with a reviewed summary of the specification"
STRN = "every path for each listed structure (listed in the check's source); texts, kinds, numbers and spans in it are arbitrary. Larger structures are not covered."
P(id='T19', title='Tree nodes: text, length, counts and error flags always agree with the parts',
  statement="A node made of children has as length the sum of the children's lengths, as descendant count one more than the sum of theirs, and is erroneous exactly if a child is; no leaf or inner node can be made of or converted to the error kind. The text of a node is the texts of its leaves in order; its errors are exactly the error nodes below it; changing a node into an error keeps its text; `unexpected` and `expected` turn any node but an error into an error naming its kind (keywords with the advice that they cannot be identifiers); a span set on a node reaches all its descendants; a clone is equal and independent; two nodes are equal apart from spans exactly if kinds, texts and children are.",
  quant="all kinds, texts, spans and messages in the listed shapes of leaves, errors and inner nodes",
  why="tests compare printed trees of a few sources; length, count and error flags of nodes are never inspected",
  files=[S+'node.go'],
  mech=[('constructors', 'node.go NewLeaf, NewInner, NewError'), ('observers', 'node.go len, text, into_text, erroneous, errors, descendants'), ('changes', 'node.go convert_to_error, unexpected, expected, synthesize, clone'), ('comparison', 'node.go spanless_eq')],
  tech=STR, note=STRN)
P(id='T20', title='Renumbering and replacing children keeps spans unique, ordered and in bounds',
  statement="Numbering a subtree assigns to each node a span number in the given interval, in document order, evenly spread and with room for later insertions if there is room, and reports an interval that is too small without losing nodes. Replacing a range of children keeps the equal nodes at both ends of the replacement, puts the others in place of the old ones, updates length, descendant count and error flag exactly, and numbers the new nodes between their neighbours, widening the renumbered range exponentially, to the whole node at last. A change below is carried to the parents by exactly its difference.",
  quant="all intervals and numbers, all texts, kinds and spans in the listed child lists and replacement ranges, all outcomes of the comparison and of each numbering attempt",
  why="tests never edit a source so often that numbers run out, and never look at the numbers",
  files=[S+'node.go'],
  mech=[('numbering', 'node.go numberize'), ('replacement', 'node.go replace_children'), ('parents', 'node.go update_parent, upper')],
  tech=STR, note=STRN+" The numbering of nodes and the span construction appear as unknown functions in the replacement and are decided on their own; arithmetic is taken without overflow.")

P(id='T21', title='Spans: file, number and range survive packing; out-of-range parts are clamped',
  statement="A span made of a file and a number gives back that file and that number, and is refused exactly if the number is outside 2 up to 2^47-1; a span made of a file and a byte range gives back the file and the range, positions beyond 2^23-1 being clamped to it without touching the other parts. The detached span has neither file nor range and is distinct from every span of a file; `Or` falls back exactly on the detached span; resolving a path against a span joins it to the span's file and reports an error for a detached one; converting a span to a number and back changes nothing.",
  quant="all file identifiers 1..65535, all numbers, all range ends, all spans",
  why="tests use five fixed spans; clamping of one end spoiled other parts of the span unnoticed",
  files=[S+'span.go', S+'file.go'],
  mech=[('constructors', 'span.go NewSpanFromNumber, NewSpanFromRange, NewSpanFromUint64, NewDetachedSpan'), ('observers', 'span.go ID, Number, RawRange, IsDetached, Uint64'), ('fallback and paths', 'span.go Or, ResolvePath')],
  tech="static analysis: abstract interpretation of the SSA form over symbolic bounded integers (masks, shifts and disjoint ors normalised to linear arithmetic); the packing functions are composed symbolically with the unpacking ones and their results compared; each function's result per condition is also compared with a reviewed summary",
  note="all values of all parameters; files are nonzero 16-bit numbers")

P(id='T22', title='Incremental reparsing replaces just what the edit touches, on safe borders',
  statement="After an edit the innermost child that strictly surrounds it is tried first; then a code or content block child is parsed anew over its new range; then, in markup at top level or in a content block, the children touching the edit (plus slack, trivia, errors, semicolons, `/`, `:`, the hash before and the expression after a hash) are parsed anew, doubling the slack until it works or all children are taken. The range handed to the parser is the old range of the chosen nodes, shifted by exactly the growth of the text; line-start and bracket-nesting flags at its start are those the preceding siblings leave; the result is accepted only if both flags at its end agree with what they were (or nothing follows). Lengths and counts of all parents change by exactly the difference. If nothing works, the whole text is parsed and renumbered in the same file.",
  quant="all edit ranges and replacement lengths on twenty-one listed child lists and parents, all results of the partial parses",
  why="tests try about thirty edits, whose outcome is only compared as a tree",
  files=[S+'reparser.go', S+'node.go'],
  mech=[('search', 'reparser.go reparse, try_reparse'), ('border rules', 'reparser.go includes, overlaps, expand, next_at_start, next_nesting'), ('parents', 'node.go update_parent')],
  tech=STR, note=STRN+" The partial parses and the replacement of children appear as unknown results here and are decided on their own (T11, T13, T20). Combinations of conditions without solution are discarded by Fourier-Motzkin elimination. That the result equals a full parse is not claimed (N01).")

P(id='T23', title='Line tables: positions convert exactly and edits keep the table complete',
  statement="The table of a text has a line start after every newline character (CR LF counting as one) with its exact byte and UTF-16 index. Byte, UTF-16, line and line/column positions convert into one another exactly, are refused exactly beyond the end, and a position at a line start belongs to the line it starts. An edit replaces exactly the given bytes, keeps the lines before it, and computes the lines from the edit on anew, stepping back over a CR that could join or part from an LF. The changed part of two texts is their difference without the longest common prefix and suffix cut at character borders that do not overlap; replacing a text applies exactly that part as an edit, and equal texts change nothing.",
  quant="all texts of up to three characters of any kind, all line tables of up to three lines, all positions; for the changed part all pairs of texts of up to three bytes",
  why="tests do not reach the line tables; three of these conversions were wrong",
  files=[S+'lines.go', 'internal/stdx/stdx.go'],
  mech=[('table', 'lines.go NewLines, linesFrom'), ('conversions', 'lines.go ByteToUtf16, ByteToLine, ByteToColumn, Utf16ToByte, LineToByte, LineColumnToByte'), ('edits', 'lines.go Edit, Replace, ReplacementRange')],
  tech=STR, note="every path for texts of up to three characters; longer texts are not covered. Texts are valid UTF-8.")

P(id='T24', title='A source file keeps text, line table and numbered tree in step',
  statement="A new source holds the given file, the line table of exactly the text, and the parsed tree numbered over the full span range of that file; a detached source is one for `main.typ` in no package. An edit changes the line table first and reparses the root against the edited text with the replaced range and the length of the new text; a replacement applies exactly the changed part of the two texts as an edit and nothing if they are equal; it returns the range that was reparsed. A span is found from the root, and its range is the range of the node found, none if there is none.",
  quant="all files, texts, ranges and spans",
  why="tests edit only through the parser; the pieces never meet",
  files=[S+'source.go'],
  mech=[('construction', 'source.go NewSource, NewDetachedSource'), ('edits', 'source.go Edit, Replace'), ('lookup', 'source.go Find, Range')],
  tech=STR, note="every path; parsing, numbering, line tables and reparsing appear as unknown functions and are decided on their own (T11-T18, T20, T22, T23)")
P(id='T25', title='Linked nodes: parents, siblings, leaves, offsets and spans are found exactly',
  statement="A linked node knows its parent, its index and its byte offset; going to children, to the previous or next sibling that is not trivia, to the leaf left or right of a node, to the first or last leaf in it, or to the leaf before or after a byte position always yields the node at that place of the tree with the right parent chain, index and offset, and none if there is none. A node is found by its span exactly if a node of the tree has it.",
  quant="all kinds and texts in eight listed trees of depth up to three, from every node of them, and all byte positions; all spans present, absent, of other files or detached",
  why="tests walk two small trees; offsets after reversed iteration were wrong unnoticed",
  files=[S+'node.go'],
  mech=[('siblings', 'node.go LinkedNode.prev_sibling, next_sibling'), ('leaves', 'node.go LinkedNode.prev_leaf, next_leaf, leftmost_leaf, rightmost_leaf, leaf_before, leaf_after'), ('search', 'node.go LinkedNode.find, LinkedChildren')],
  tech=STR, note=STRN+" For the search, span numbers are the increasing ones which numbering gives.")

P(id='T26', title='Typed accessors find exactly the child the grammar gives them',
  statement="Every accessor of a typed node (body, callee, left and right operand, operator, condition, branches, parameters, arguments, items, bindings, pattern, source, new name, and so on) yields exactly the child or children which the grammar gives that role: the first, last or nth child that can be cast to the accessor's type, or the one before or after the construct's marker token, without trivia, errors and tokens; optional parts are absent exactly if there is no such child, and a part that is missing in an erroneous tree yields the documented default. Flags (block math, trailing comma, spread, sink, displayed equation) are true exactly if the deciding token or space is there.",
  quant="all child lists of up to three (thorough: four) children over an alphabet of kinds chosen for each construct, and each of the 134 kinds as the only child",
  why="tests use a handful of well-formed sources; none calls most accessors",
  files=[S+'ast.go', S+'ast_node.go'],
  mech=[('accessors', 'ast.go, 92 methods of the typed nodes'), ('casts', 'ast_node.go cast_first, cast_last, cast_iter, try_cast')],
  tech="static analysis: exhaustive abstract interpretation of each accessor's SSA form on every child list up to the bound with symbolic texts and spans; each result (identity of the child, its view type, absence, list order) is compared with a table of roles derived from the grammar",
  note="child lists of up to four children")

P(id='T27', title='Literals and markers evaluate to the value their text spells',
  statement="The value of a leaf is exactly what its text spells: integers in base 2, 8, 10 and 16; floats of every decimal shape, overflow giving infinity; numbers with each of the nine units split into value and unit; strings with all escapes, invalid ones kept verbatim; escaped characters; markup and math shorthands; labels and references without their delimiters; enum numbers; quote kinds; booleans; math text as number or single character; the texts of text, identifier, language tag and link unchanged. A bare import binds the package's name or the stem of the path, and is refused exactly if that is no identifier or the package specification is invalid.",
  quant="all texts of every listed shape (up to nine characters; characters in it are arbitrary within their class)",
  why="tests evaluate no literal; integers, units, overflow and invalid escapes were wrong",
  files=[S+'ast.go'],
  mech=[('numbers', 'ast.go Int.get, Float.get, Numeric.get'), ('strings', 'ast.go Str.get, Escape.get'), ('markers', 'ast.go Shorthand.get, MathShorthand.get, Label.get, Ref.target, EnumItem.number, SmartQuote.double'), ('imports', 'ast.go ModuleImport.bare_name')],
  tech="static analysis: path-sensitive abstract interpretation of the accessor's SSA form on unknown texts (character by character, refined by every comparison); the value per text class is compared with a reviewed summary",
  note="every path for texts of the listed shapes. The numeric value of a digit string is the named term int<base>(digits) or float(text): the library's conversion is trusted.")

P(id='T28', title='Highlighting assigns the tag the place in the tree demands',
  statement="Each kind of node gets exactly its highlighting tag, with stars, underscores, slashes and equals signs judged by their parent. An identifier is a function exactly if the very next leaf, without a gap, opens an argument list, a parameter list or a content block, or if it stands next to the colon of a show rule; it is interpolated in math or, field accesses included, directly after a hash; behind a dot it follows the identifier in front of the dot. A hash takes the tag of the first leaf of the embedded expression, and none if no expression follows. HTML output wraps each tagged node except errors in a span of its class, nests these like the tree, and writes each leaf text once with the five special characters escaped.",
  quant="all kinds and texts of the nodes in 31 listed trees of depth up to three; for HTML, texts of up to two arbitrary characters; all tags",
  why="one test highlights a few lines; a hash highlighted by the wrong sibling went unnoticed",
  files=[S+'highlight.go', S+'node.go'],
  mech=[('tags', 'highlight.go highlight, highlight_ident, highlight_hash'), ('HTML', 'highlight.go highlight_html, highlight_html_impl'), ('names', 'highlight.go Tag.tm_scope, Tag.css_class')],
  tech=STR, note=STRN)

P(id='T29', title='Virtual paths never leave the root of their project or package',
  statement="Every virtual path is absolute and clean: it starts with a slash and has no `.` or `..` part, however many `..` the text it is made from contains. Joining starts from the directory of the file, or from the root if the text is absolute; changing the extension replaces the last extension only.",
  quant="all texts and all virtual paths; all places in the program that store a virtual path",
  why="no test makes a virtual path; relative paths were not rooted",
  files=[S+'path.go'],
  mech=[('construction', 'path.go NewVirtualPath, VirtualPath.Join, VirtualPath.WithExtension'), ('who may construct', 'all stores to VirtualPath.Path')],
  tech="static analysis: abstract interpretation of the path functions' SSA form on unknown texts, with cleaned paths as normalised segment lists (path/filepath functions are modelled in this domain), plus a whole-program rule on every store to a virtual path",
  note="every path; the cleaning of path/filepath is trusted as documented. On Windows a leading backslash is not covered.")

P(id='T30', title='File ids stand for exactly one package and path, also under concurrency',
  statement="The same package specification (by value) and path always yield the same id, different ones different ids, and a fake id is never shared; ids are never zero, an id gives back the package and path it was made from, and when all ids are in use a new one is refused instead of reusing one. The tables are read and written only with the lock held in the right mode, the lock is released on return and never taken twice, and each change is decided by what was read in the same critical section. Joined ids stay in their package; the text of an id is the package specification and the path.",
  quant="all histories of up to three requests with all equalities between their namespaces, names, version parts and paths, which are unknown; all accesses to the tables",
  why="tests run in one goroutine and use one file; ids were compared by pointer unnoticed",
  files=[S+'file.go'],
  mech=[('interning', 'file.go NewFileID, NewFakeFileID, pushPair'), ('lookup', 'file.go FileID.pair, Spec, VPath'), ('lock discipline', 'file.go Interner'), ('derived ids', 'file.go FileID.Join, WithExtension, String')],
  tech="static analysis: abstract interpretation of call histories from the program's initial state with symbolic arguments under given equalities; lock-state and critical-section tracking on every access to the guarded tables",
  note="histories of up to three requests; the lock rules hold for every access on every path")

P(id='T31', title='Package specifications, versions, bounds and manifests mean what they spell',
  statement="A package specification is accepted exactly if it reads @namespace/name:major.minor.patch with identifiers as names and three decimal numbers that fit 32 bits, and a version bound exactly if it has one to three such numbers; the parts are the ones spelled, and printing gives them back in the same form. Comparing a version with a bound looks at the parts in order of weight and ignores parts missing from the bound; at least and at most are the union of equal and greater or less. A manifest must have a package section and is for a package exactly if name and version are equal and the compiler is at least the required version; each manifest key fills its own field.",
  quant="all texts of the listed shapes (up to four arbitrary characters, or longer with numbers of up to eleven digits); all versions and bounds, all manifests",
  why="tests parse no manifest and compare no versions; a manifest without package section crashed",
  files=[S+'package.go'],
  mech=[('parsing', 'package.go ParsePackageSpec, ParsePackageVersion, ParseVersionBound'), ('comparison', 'package.go PackageVersion.Matches*'), ('manifests', 'package.go ParsePackageManifestFromToml, PackageManifest.Validate')],
  tech="static analysis: path-sensitive abstract interpretation of the SSA form on unknown texts, versions and bounds (comparisons decided by the signs of the differences of the parts), compared with a reviewed summary; struct tags checked against the manifest format",
  note="every path for texts of the listed shapes; all versions. The TOML library's decoding and strconv's number parsing are trusted.")

P(id='T32', title='The scanner moves over exactly the characters its operations name',
  statement="Every scanner operation is exact for every text and every character position: looking (peek, at, scout) never moves and reports the character or prefix which is there; eating moves by exactly the characters consumed, in whole characters, and reports them; eating while or until a pattern or predicate stops at the first place where it does not or does hold, or at the end; going back undoes one character; locating counts characters forwards and backwards, stopping at the ends; a jump or a range with an arbitrary byte position snaps to the character boundary before it and never leaves the text.",
  quant="all texts of up to six unknown characters, all cursor positions, an arbitrary predicate; byte positions up to two past the end for texts of all encoded widths",
  why="no test uses the scanner on its own; Locate(0) moved",
  files=['internal/scanner/scanner.go'],
  mech=[('scanner', 'internal/scanner/scanner.go, 24 methods')],
  tech=STR, note="texts of up to six characters (positions within characters: up to three)")

P(id='T33', title='Lists, stacks, options, ranges and character classes do what they say',
  statement="The list's push, insert, truncate, drain and extend give exactly the list they name, drained elements are kept apart from the list's memory; a stack gives back what was pushed last; an option is present exactly if made from a value, and a copy has the same value; a range is empty exactly if its end is not behind its start; the next power of two is the least one not below the number; each character class has exactly its characters; a byte position is a character boundary exactly at the start of a character or at the ends of the text.",
  quant="lists of up to four unknown elements with all positions; all numbers of 64 bits; all characters; texts of up to three characters of all widths with all positions",
  why="one test of the stack with fixed values is all there is",
  files=['internal/vector/vector.go', 'internal/stack/stack.go', 'internal/option/option.go', 'internal/ranges/ranges.go', 'internal/mathx/mathx.go', 'internal/stdx/stdx.go'],
  mech=[('containers', 'internal/vector, internal/stack, internal/option'), ('numbers', 'internal/ranges, internal/mathx'), ('characters', 'internal/stdx')],
  tech=STR, note="lists of up to four elements; the generic code is analysed in one of its instances")

P(id='T34', title='Walking a tree visits every node exactly once in document order',
  statement="Walking calls the visitor for every node of the tree exactly once, parents before their children and children in order, with the places a node is stored in and its representation on the way; below a node for which the visitor declines nothing is visited, but everything else still is; a node that occurs in two places is visited once.",
  quant="all trees of the listed shapes up to three levels, all answers of the visitor at every visit",
  why="no test walks a tree; the update tool relies on it to find every import",
  files=['typst/cstwalk/cstwalk.go'],
  mech=[('walk', 'cstwalk.go Walk')],
  tech="static analysis: abstract interpretation of the walker's SSA form on tree shapes with an unknown visitor; the sequence of visits per sequence of answers is compared with a reviewed summary", note="13 tree shapes up to three levels, walked from nodes, representations and pointers to them")

P(id='T35', title='No hidden shared state: concurrent use is safe, results depend on arguments only',
  statement="Parsing, highlighting and everything else in the library may be done from several goroutines at once on different values, and the outcome depends on the arguments alone: no function changes a package-level variable after initialisation, except for the table of file ids, which is never read or written without its lock held in the right mode. Nothing starts goroutines, reads the clock, the environment, files or random numbers, or lets the random order of a map's entries become visible.",
  quant="all functions of the library, all call chains from exported functions, all paths",
  why="tests run in one goroutine; races and hidden state show up only under concurrency or in a second call",
  files=[S, 'internal/', 'typst/cstwalk/'],
  mech=[('file id table', 'file.go interner'), ('initialised tables', 'kind.go, set.go, highlight.go, lexer.go'), ('everything else', 'all library functions')],
  tech="static analysis: interprocedural write-effect analysis (points-to summaries per function over memory reached from parameters, captured variables and package-level variables), lock-set dataflow on every access to variables which are changed, and a rule against sources of hidden input",
  note="whole library; flow-insensitive points-to, so a write is reported if it may reach a package-level variable. Library functions outside the repository are assumed to write only the arguments listed in the analyzer.")

P(id='T36', title='Looking at a tree, a source or a value never changes it',
  statement="Accessors, typed views, navigation, lookup, highlighting, comparison, printing, conversions and walking leave everything they are given as it was: nodes, child lists, errors and hints, sources, line tables, paths, specifications and sets. Only the operations meant to change something (edit, replace, numbering, conversion of nodes, scanner movement, the output written to) do.",
  quant="all 434 reading functions and methods, all call chains from them, all arguments",
  why="tests look at a value once; an accessor which reorders or cuts a shared child list breaks only what is done next",
  files=[S, 'typst/cstwalk/cstwalk.go', 'internal/'],
  mech=[('tree', 'node.go SyntaxNode, LinkedNode'), ('typed views', 'ast.go'), ('sources', 'source.go, lines.go, span.go'), ('values', 'path.go, package.go, file.go, set.go')],
  tech="static analysis: interprocedural write-effect analysis (points-to summaries over memory reached from parameters, including closures handed out), one obligation per reading function: no write to memory it was given",
  note="all functions of a reviewed list of readers; appends within the spare capacity of a list are not counted as a change unless the list was cut short before")

P(id='T37', title='offline-typ makes a complete offline copy of a project or reports an error',
  statement="offline-typ writes to the output directory the input file and every Typst file it imports or includes, in turn, each once, and copies the files named by read, image, plugin and bibliography. A package import is redirected to the entry point of the package below /libs, keeping the name bound; every package needed, directly or by another package, is copied and rewritten there. Font directories are copied under their path. All other text stays as it was, nothing outside the output directory is written, and a failed access ends in a reported error, not in a silent loss.",
  quant="all project trees and package graphs of the listed shapes, with unknown names, texts and file contents, and every failure of every file access",
  why="the commands have no tests",
  files=['cmd/offline-typ/'],
  mech=[('rewrite of references', 'cmd/offline-typ/main.go rewrite, rewriteFile'), ('queue of packages', 'rewriteLibs, popSpec'), ('copies', 'copyPackage, copyDir')],
  tech="static analysis: symbolic abstract interpretation of go/ssa over an abstract file system; per-case observable summaries (files written with their content, result, error) compared with references reviewed against the statement",
  note="the order in which a map is ranged over is abstracted; files listed by the shapes only; offline fonts in directories above the output directory are refused by os.Root (reported as an error)")
P(id='T38', title='update-typ changes package versions only, and only to newer ones',
  statement="update-typ writes the input file and every Typst file it imports or includes, in turn, each once, to the output directory or in place. The version of a package import becomes the greatest installed version of that namespace and name if that is newer, and stays otherwise; all other text stays as it was. Packages are looked at, with those they need, each once, but never changed. A failed access ends in a reported error, and the result tells whether anything was out of date.",
  quant="all file trees and installed versions of the listed shapes, with unknown names, versions and file contents, and every failure of every file access",
  why="the commands have no tests",
  files=['cmd/update-typ/'],
  mech=[('update of imports', 'cmd/update-typ/main.go rewrite, findOldVersions'), ('latest version', 'latestSpec, findVersions'), ('packages', 'checkLibs, checkLib, getPackageDir')],
  tech="static analysis: symbolic abstract interpretation of go/ssa over an abstract file system; per-case observable summaries (files written with their content, result, error) compared with references reviewed against the statement",
  note="files listed by the shapes only; the directories searched depend on the environment, which is unknown")
P(id='T39', title='Printing a tree gives back its source and lists every node once, in order',
  statement="Printing a tree as source writes the text of every leaf and error in document order, which is the text it was parsed from. The listing of a tree writes one line for each node, leaf, inner or error, with its kind, text and message, indented by its depth, in document order. parse-typ lists the tree of each file it is given and ends with an error status at a file it cannot read.",
  quant="all trees of the listed shapes with unknown texts",
  why="the printer has no tests",
  files=[S+'node.go', 'cmd/parse-typ/'],
  mech=[('source text', 'PrintNode'), ('listing', 'PrintRoot'), ('command', 'cmd/parse-typ/main.go')],
  tech="static analysis: symbolic abstract interpretation of go/ssa; per-case summaries of the text written compared with reviewed references",
  note="trees up to the listed depth")

NA = []
def N(**k): NA.append(k)
N(id='N01', title='An incremental reparse yields the tree of a full parse for every edit',
  statement="After any edit the incrementally updated syntax tree equals, up to span numbers, the tree obtained by parsing the new text from scratch.",
  over=['histories'], quant="all source texts and all edit sequences",
  why="tests try about thirty edits",
  files=[S+'reparser.go', S+'source.go'], mech=[('incremental reparse', 'reparser.go')],
  reason="equality of two parse results over all texts and edits quantifies over runtime values no sound static argument in reach can bound; the structural clauses (range arithmetic, nesting bookkeeping, acceptance conditions, renumbering) are claimed as separate properties")
N(id='N02', title='Parsing takes time and stack linear in the source text',
  statement="Parsing any source text takes time proportional to its length and a bounded call depth.",
  quant="all source texts", why="tests parse short inputs",
  files=[S+'parser.go', S+'lexer.go'], mech=[('memoised backtracking', 'parser.go')],
  reason="a bound on run time and recursion depth is a runtime quantity; only progress of each loop is decided statically")
NOTES = "All checks are one analyzer (analyzer/, go/ssa based) that loads /repo's current source on every run; nothing of /repo is executed. Known findings and fixed defects: known-findings.txt. See DESIGN.md."
