#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

QG, SG, TK, CM, FM = "src/query/grammar.rs", "src/schema/grammar.rs", "src/tokenizer.rs", "src/common.rs", "src/format.rs"
QF, SF, MN, QA, SA, QE, PO = "src/query/format.rs", "src/schema/format.rs", "src/query/minify.rs", "src/query/ast.rs", "src/schema/ast.rs", "src/query/error.rs", "src/position.rs"

p("C01", "No input text crashes or hangs the library",
  "For every input text, parsing it as a query document, as a schema document, as a single definition, and minifying it each return either a result or an error value in bounded time: none of them panics, overflows the stack, or loops, whatever bytes of valid UTF-8 the text holds. Formatting whatever was parsed, under any indentation from 0 to 8 and either argument layout, also always returns.",
  ["inputs"], "every UTF-8 text (explored exhaustively over small hostile alphabets and over all grammar configurations)",
  "The tests feed about 60 well-formed files and some 25 malformed lexemes; slicing, escape decoding and indentation removal work on byte offsets, and a crash needs a particular mix of characters no sample contains.",
  [TK, CM, FM, QG, SG, MN], [("token scanning by byte offsets", TK), ("block string indentation removal", CM), ("escape decoding", CM), ("recursion limit", TK), ("indent bookkeeping", FM)],
  ["parse_query", "parse_schema", "consume_definition", "minify_query", "Document::format"])

p("C02", "Formatting a query document loses nothing",
  "For every query document the parser accepts and every formatting style, the formatted text is accepted again and yields an AST equal to the first in everything but source positions. Consequently formatting the re-parsed document with the same style reproduces the same text.",
  ["inputs", "configurations"], "every accepted query document, every style (indent width, argument layout)",
  "The round-trip tests compare 40 fixed files, nearly all of them already in canonical form and without special characters; no test re-parses formatter output, or combines constructs freely.",
  [QF, FM, QG, CM], [("one display routine per AST node", QF), ("argument block layout", FM), ("string quoting", FM)],
  ["parse_query", "query::Document::format", "Display"])

p("C03", "Formatting a schema document loses nothing",
  "For every schema document the parser accepts and every formatting style, the formatted text is accepted again and yields an AST equal to the first in everything but source positions. Consequently formatting the re-parsed document with the same style reproduces the same text.",
  ["inputs", "configurations"], "every accepted schema document, every style",
  "The tests compare 24 fixed files; descriptions, directives, default values and empty bodies occur in a few combinations out of thousands, and formatter output is never parsed again.",
  [SF, FM, SG, CM], [("one display routine per AST node", SF), ("description printing", SF), ("string quoting", FM)],
  ["parse_schema", "schema::Document::format", "Display"])

p("C04", "The query parser accepts exactly the executable GraphQL grammar",
  "A text is accepted as a query document exactly when it is a non-empty sequence of operations and fragment definitions of the GraphQL grammar (selection sets, argument lists and variable lists non-empty; default values contain no variables; 'on' after '...' always introduces a type condition; keywords usable as names elsewhere), with nesting within the limit and nothing left over. Every other text is rejected with an error.",
  ["inputs"], "every token sequence",
  "Two error files and some dozens of valid files pin a handful of points; language equality is a statement about all token sequences, including every one-token corruption of every valid one.",
  [QG, CM, "src/helpers.rs"], [("combinator grammar", QG), ("value, type and directive grammar", CM), ("end-of-input requirement", QG)],
  ["parse_query"])

p("C05", "The query AST says exactly what the text says",
  "For every accepted query document the AST holds each definition, variable, directive, selection, alias, argument, type and value that is written, in source order, attached to the construct it is written on, and nothing else. Object values keep one entry per key (the last one written) in key order; 'true', 'false' and 'null' are booleans and null while every other bare name in value position is an enum value.",
  ["inputs"], "every accepted query document",
  "Two tests look at an AST, for '{ a }' and for three builtin values; all other tests only see it through the formatter, where a symmetric mistake is invisible.",
  [QG, CM, QA], [("AST construction in the combinators' map closures", QG), ("value grammar", CM)],
  ["parse_query", "public fields of query::*"])

p("C06", "The schema parser accepts exactly the type-system grammar",
  "A text is accepted as a schema document exactly when it is a non-empty sequence of schema, type, type-extension and directive definitions of the GraphQL type-system grammar: bodies in braces or parentheses are non-empty (except the schema definition's), each operation kind occurs at most once in a schema definition, every extension adds something (an interface, a directive or a body, as its kind allows), directive locations are known names, and descriptions stand before type and directive definitions, fields, arguments, input fields and enum values. Every other text is rejected with an error.",
  ["inputs"], "every token sequence",
  "All schema tests parse valid files, none checks that anything is rejected; language equality quantifies over all token sequences.",
  [SG, CM], [("combinator grammar", SG), ("semantic checks in flat_map closures", SG)],
  ["parse_schema"])

p("C07", "The schema AST says exactly what the text says",
  "For every accepted schema document the AST holds each definition, description, implemented interface, directive, field, argument, type, default value, union member, enum value, directive location and repeatable flag that is written, in source order, attached to the construct it is written on, and nothing else.",
  ["inputs"], "every accepted schema document",
  "One test looks at a schema AST, for 'schema { query: Query }'.",
  [SG, CM, SA], [("AST construction in the combinators' map closures", SG), ("descriptions filled in after the fact", SG)],
  ["parse_schema", "public fields of schema::*"])

p("C08", "Text is split into tokens by the GraphQL lexical grammar",
  "Every text is split into punctuators, names, integers, floats, strings and block strings by longest match exactly as the GraphQL lexical grammar says, with spaces, tabs, line ends, commas, comments and byte-order marks ignored between tokens and no separator needed where the grammar needs none. Malformed numbers, lone dots, unterminated strings and characters outside the grammar are errors, and a number is not followed directly by a digit, letter, underscore or dot.",
  ["inputs"], "every text (explored: all strings up to a length over alphabets with every lexically distinct character class)",
  "The tokenizer tests list about 60 lexemes; token boundaries depend on each adjacent pair and on look-ahead, which only an enumeration of all short strings covers.",
  [TK], [("take_token", TK), ("skip_whitespace", TK), ("number validation", TK)],
  ["minify_query", "parse_query of list values"])

p("C09", "Quoted strings decode to the exact characters they denote",
  "In a quoted string every unescaped character stands for itself; \\\" \\\\ \\/ \\b \\f \\n \\r \\t stand for quotation mark, backslash, slash, backspace U+0008, form feed U+000C, line feed, carriage return and tab; and \\u followed by four hexadecimal digits of either case stands for that code point. Any other escape, fewer than four hexadecimal digits, or a surrogate code point makes the document an error, as does a raw line end inside the quotes.",
  ["inputs"], "every quoted string: all Unicode scalar values raw, all 65536 \\u escapes in each letter case, all short combinations",
  "One unit test decodes six \\u escapes; \\b, \\f, \\/ and the malformed escapes are not tested, nor are combinations.",
  [CM, TK], [("unquote_string", CM), ("string scanning", TK)],
  ["parse_query string arguments", "parse_schema descriptions and default values"])

p("C10", "Block strings have the value the GraphQL algorithm gives them",
  "The value of a block string is its raw text split at line ends (LF, CR, CRLF), with the smallest indentation (spaces and tabs only) of the non-blank lines after the first removed from every line but the first, leading and trailing blank lines dropped, the remaining lines joined by LF, and \\\"\"\" standing for three quotes. All other characters, including other Unicode spaces and backslashes, are kept as they are.",
  ["inputs"], "every block string (explored: all bodies up to a length over spaces, tabs, line ends, quotes, backslashes, letters and multi-byte spaces)",
  "Four unit tests fix five values; the algorithm depends on the relation between the indentations of all lines and on blank lines shorter than the common indentation.",
  [CM, TK], [("unquote_block_string", CM), ("block string scanning", TK)],
  ["parse_query string arguments", "parse_schema descriptions"])

p("C11", "Printed string literals denote exactly the string they print",
  "For every string, printing an AST that holds it - as an argument, list item, object field, default value or description, at any nesting depth and in any style - produces a literal which the parser reads back as the identical string. This includes control characters, quotes, backslashes, characters beyond U+FFFF, and multi-line strings with leading, trailing, blank or indented lines.",
  ["inputs", "configurations"], "every string, every place a string can stand, every style",
  "Tests print one multi-line and a few plain strings; the choice between quoted and block form and the indentation added to block form interact with the content of the string.",
  [FM, QF, SF, CM], [("write_quoted", FM), ("description printing", SF)],
  ["Document::format on ASTs built or edited by the caller"])

p("C12", "Numbers keep their value and kind",
  "An integer literal within the signed 64-bit range is read as exactly that integer and one outside it is an error; a float literal is read as the nearest double. Printing a number yields a literal that is read back as the same value and kind, and the number type converts from any 32-bit integer and to a 64-bit one without loss.",
  ["inputs"], "every integer and float literal",
  "Tests read half a dozen numbers; the boundary of the range, exponents and the printed form of large, tiny or integral floats are untested.",
  [CM, TK, QF], [("int_value / float_value", CM), ("check_float / check_int", TK), ("Value::display", QF)],
  ["parse_query", "Display of Value", "Number::as_i64", "From<i32> for Number"])

p("C13", "AST positions point at the source text",
  "Every position in an AST is the one-based line and column of the token at which that node starts in the input - for a type or directive definition its keyword (after any description), for an extension the keyword after 'extend', for a fragment spread or inline fragment the token after '...' - and a selection set's span holds its opening and closing brace (for a field without one, the field's own position twice). Lines are counted once per LF, CR or CRLF, and columns per character, a tab between tokens counting eight and a byte-order mark or carriage return none.",
  ["inputs"], "every accepted document with every arrangement of ignored text and multi-line tokens",
  "Three tests look at positions, all on one line of ASCII; multi-byte characters, CRLF, comments and block strings before a node are untested.",
  [TK, QG, SG], [("position tracking in take_token / skip_whitespace / update_position", TK), ("position() in the grammar", QG)],
  ["position and span fields of the AST"])

p("C14", "A syntax error is reported where the text first goes wrong",
  "The position in the error for a rejected document is that of the first token (or the end of input, or the malformed lexeme, undecodable string or out-of-range integer) at which the text read so far can no longer be continued to an acceptable document. A schema definition with repeated or unknown operations, and an extension that adds nothing, are reported at their own keyword instead.",
  ["inputs"], "every rejected text",
  "Two error files and three assertions fix five messages; the position depends on which parser branch had consumed what, for each possible failure point.",
  [QG, SG, TK, "src/helpers.rs"], [("error merging by the combinators", QG), ("position tracking", TK)],
  ["Display of ParseError"])

p("C15", "The nesting limit counts open brackets, nothing else",
  "A document whose brackets, braces and parentheses are never more than 50 deep is never rejected for its depth, however many groups it opens and closes one after another, whatever their kinds and wherever they occur. A document that goes deeper is rejected with the recursion-limit error, as an ordinary error and at the bracket that is too deep.",
  ["inputs", "histories"], "every sequence of opening and closing brackets a document can contain",
  "One test nests one kind of document 55 deep; the limit is a counter changed by every bracket token, including tokens read ahead and read again.",
  [TK], [("recursion_limit counter in take_token", TK), ("look-ahead cache", TK)],
  ["parse_query", "parse_schema", "consume_definition", "minify_query"],
  [{"name": "recursion_limit", "meaning": "brackets that may still be opened", "where": TK}])

p("C16", "Minifying keeps every token and drops everything else",
  "For every text that minify_query accepts, its output holds exactly the same tokens, in order and verbatim, with nothing between them but one space between two tokens neither of which is a punctuator, and between a number and a following '...', so comments, commas, line ends and byte-order marks are gone. It accepts every valid query document, whose minified form parses to the same AST except for positions, and minifying again changes nothing.",
  ["inputs"], "every text",
  "One test minifies one query and one checks an error; which neighbours need a space depends on each ordered pair of token kinds and every kind of ignored text.",
  [MN, TK], [("token loop", MN)],
  ["minify_query"])

p("C17", "Consuming definitions one by one equals parsing the document",
  "consume_definition succeeds exactly when some prefix of the text is a complete definition and returns that definition, the same one parse_query would give first, together with the exact rest of the text starting at the first token after it, whatever that rest is. Applying it until nothing remains gives exactly the definitions parse_query gives for the whole text.",
  ["inputs", "histories"], "every text, every number of consecutive calls",
  "Four tests use short single-line inputs; the remainder offset depends on the ignored text and the look-ahead at the end of the definition.",
  [QG, TK], [("offset after look-ahead", TK), ("consume_definition", QG)],
  ["consume_definition"])

p("C18", "Ignored text never changes what a document means",
  "Inserting spaces, tabs, line ends, commas, comments or byte-order marks between any two tokens, before the first or after the last changes neither whether a query or schema document is accepted nor its AST, except for positions. Removing such text changes nothing either as long as neighbouring tokens stay apart.",
  ["inputs"], "every document, every gap, every kind of ignored text",
  "One test has commas and comments in a few places of one query.",
  [TK], [("skip_whitespace", TK)],
  ["parse_query", "parse_schema"])

p("C19", "The chosen text type never changes the result",
  "Parsing with borrowed, owned or copy-on-write text, or a text type of the user's own, gives the same acceptance, the same error message, the same AST and the same printed text, and the conversions of documents and values to the 'static lifetime keep every part of them equal and usable after the source text is gone.",
  ["inputs", "configurations"], "every text, each of &str, String, Cow<str> and a user-defined type",
  "Nearly all tests use String; no test compares text types or calls the conversions.",
  [CM, QA, SA], [("Text trait and generics", CM), ("into_static", QA)],
  ["parse_query", "parse_schema", "consume_definition", "Document::into_static", "Value::into_static"])

p("C20", "Style changes only the layout of formatted output",
  "Displaying a document equals formatting it with the default style (two spaces, arguments on one line), and output under any two styles differs only in spaces and line ends between tokens and in the indentation inside block strings. In every style each definition starts on its own line after one blank line, each selection, field, enum value and operation type stands on its own line, each line starts with exactly as many times the style's indent as blocks are open there, the text of a block string and its closing quotes follow that indentation (the text one level deeper than the closing quotes, which stand at the level of the line's block), and with multi-line arguments on, each argument, list item and object entry of an executable document's values has its own line as well. A style is what was last set in it, in whatever order and however often.",
  ["inputs", "configurations"], "every document, every style",
  "Style is only ever changed in four tests, always to multi-line arguments with the default width; no test uses another indent width.",
  [FM, QF, SF], [("Formatter indent bookkeeping", FM), ("argument blocks", FM)],
  ["Document::format", "Display"])

p("C21", "Results do not depend on what was processed before",
  "The result of every parsing, formatting, consuming or minifying call is a function of its arguments alone: any sequence of calls, failing ones included, on one thread or alternating between threads, gives for each call the result it gives in a fresh process.",
  ["histories", "schedules"], "every sequence of calls from a menu up to a length, each call on either of two threads",
  "Each test makes one or two calls in its own process or thread.",
  [TK, QG, SG, FM, MN], [("all parser state lives in the token stream of one call", TK), ("the formatter owns its buffer", FM)],
  ["all public functions"])

p("C22", "Directive locations and their names correspond one to one",
  "Each of the 19 directive locations has one name, the one the GraphQL specification gives it, which parses back to it, and every other text is refused; the executable locations of the specification (those in queries, variable definitions included) are classified as query locations and all others, and only those, as schema locations. In a directive definition exactly these names are accepted after 'on', and they are kept and printed in the order written.",
  ["inputs"], "all locations, all texts close to a location name, all short location lists",
  "Three schema files use five of the locations; nothing tests refusal or classification.",
  [SA, SG, SF], [("as_str / from_str tables", SA), ("directive_locations", SG)],
  ["DirectiveLocation::as_str", "FromStr", "is_query", "is_schema", "parse_schema"])

p("C23", "Concatenated documents parse to concatenated definitions",
  "If two texts are both accepted as query documents, or both as schema documents, and the first does not end in a directive definition without locations, then the first followed by a line end and the second is accepted too and its definitions are those of the first followed by those of the second, positions apart. Printing the combined document gives the prints of the two with one blank line between.",
  ["inputs"], "every pair of accepted documents",
  "Test files hold one definition each, apart from the kitchen sinks; which definition can follow which, and what an unfinished optional tail of the first swallows, is never varied.",
  [QG, SG, QF, SF], [("many1 over definitions", QG), ("optional trailing parts of definitions", SG), ("margin between definitions", FM)],
  ["parse_query", "parse_schema", "Display"])

p("C24", "Each AST node prints as a fragment that means that node",
  "Displaying any single node of a parsed document - definition, operation, selection set, field, argument value, type, directive, variable or input definition, and every other displayable node - gives text that, put where such a node may stand, is read back as an equal node, positions apart. The text is made of the same tokens as that node's part of the printed document.",
  ["inputs"], "every node of every accepted document",
  "The tests display documents only, never a node by itself.",
  [QF, SF, FM], [("impl_display for every node type", QF), ("Displayable implementations", SF)],
  ["Display of every AST type"])

p("C25", "A syntax error names what it met",
  "The error for a text that stops being a viable beginning of a document at some token names exactly that token by its text; one that merely ends too early says it met the end of input; one that goes wrong at a malformed token names no token. A syntax error lists what was expected, and at least one listed item could really stand there. A name that is no directive location is reported as such, and a repeated or unknown operation of a schema definition is named. No error is without a reason.",
  ["inputs"], "every rejected text of the query or schema language",
  "The tests compare the messages of about ten malformed texts.",
  [TK, QG, SG, QE], [("messages of the token stream", TK), ("combined expectations", QG), ("location and operation errors", SG), ("error Display", QE)],
  ["parse_query", "parse_schema", "ParseError Display"])

p("C26", "The cost grows in proportion to the text",
  "The time for parsing, consuming, printing or minifying a text grows no faster than in proportion to its length, however the text is built: whatever repeatable part of the grammar, of a token or of ignored text it repeats, a text of 32 times the length takes about 32 times as long and never many times more.",
  ["inputs"], "every repeatable part of the grammar, of a token and of ignored text",
  "No test measures time or uses a text of more than a few kilobytes.",
  [TK, CM, QG, SG, FM, MN], [("positions are updated, not recounted", TK), ("string and block string decoding", CM), ("writing of blocks and indentation", FM)],
  ["parse_query", "parse_schema", "consume_definition", "minify_query", "Document::format"])

p("C27", "Equality, cloning and position order tell the truth",
  "Two parsed documents or definitions are equal exactly when they hold the same things at the same positions; a copy equals its original and holds the same. Numbers and values compare by what they hold, styles by what they were set to, directive locations by their names. Positions are ordered by line and then column, equal only when both agree, and display as line:column.",
  ["inputs"], "every pair of accepted documents that differ in one place; all pairs of small and extreme positions and values",
  "The tests use equality, they do not test it; a field left out of a comparison would make other tests weaker, not fail.",
  [QA, SA, PO], [("derived and written PartialEq", QA), ("schema nodes", SA), ("Pos", PO)],
  ["PartialEq and Clone of all AST types", "Pos"])

p("C28", "Printing depends on nothing but the content",
  "Two documents with the same content, parsed from differently laid out texts or with other positions put in, print the same in every style. Definitions made with the constructors and then filled in step by step start out empty, print and parse back as what was filled in, and equal what parsing the same text gives, positions apart.",
  ["inputs", "histories"], "every document in every layout; every sequence of building steps up to a length",
  "The round-trip tests print each document from one layout only; no test builds an AST by hand.",
  [QF, SF, FM, SA], [("Displayable implementations", QF), ("schema printing", SF), ("constructors", SA)],
  ["Display", "Document::format", "schema::*::new"])

p("C29", "Memory is in proportion to the text and is given back",
  "Parsing, consuming, minifying, printing, cloning, or taking over a document, and dropping the results, successful or not, leaves nothing allocated that grows with the number of calls. The memory these need, at a time and in all, grows no faster than in proportion to the length of the text, however the text is built, and stays within 8 KiB for each byte of text.",
  ["inputs"], "every bounded document and malformed text; every repeatable part of the grammar, of a token and of ignored text",
  "No test looks at memory: what is kept, copied or reserved too often shows in no result.",
  [TK, CM, QG, SG, FM, MN, QA], [("string decoding", CM), ("into_static", QA), ("the formatter's buffer", FM), ("minified text is collected in one string", MN)],
  ["parse_query", "parse_schema", "consume_definition", "minify_query", "Document::format", "into_static"])

p("C30", "A syntax error depends only on the text up to where it occurs",
  "If a text is refused because of its last token, being no possible continuation of what comes before it, then the same text with anything after that token (a space between) is refused with the same error, word for word: reason, position, what was met and what was expected.",
  ["inputs"], "every text refused at its last token, with every tail of a menu after it",
  "Each test gives one malformed text and looks at one error.",
  [TK, QG, SG, QE], [("token stream: one token is read at a time", TK), ("no look-ahead beyond the offending token", QG), ("schema grammar", SG)],
  ["parse_query", "parse_schema", "consume_definition", "ParseError Display"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
