#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

QG, QF, QA = "src/query/grammar.rs", "src/query/format.rs", "src/query/ast.rs"
SG, SF, SA = "src/schema/grammar.rs", "src/schema/format.rs", "src/schema/ast.rs"
C, F, H, T, L = "src/common.rs", "src/format.rs", "src/helpers.rs", "src/tokenizer.rs", "src/lib.rs"
M = "src/query/minify.rs"

p("P01", "Query parsing is faithful to the executable-document grammar",
  "parse_query accepts a token sequence exactly when it is an executable document (operations with variables and constant defaults, selection sets, fields with aliases/arguments/directives, spreads, inline fragments, fragment definitions, values, types), and rejects every other. The tree it returns holds every name, alias, argument, value, variable, type reference, type condition, directive and selection of the text in its own place and in source order: nothing is dropped, duplicated, invented or attached to the wrong field. (The grammar is that of the October 2021 specification in this library's dialect: a fragment may be named 'on', variable definitions take no directives, and of two equal object keys the last wins.)",
  ["inputs"], "all token sequences", "The tests parse about forty fixed documents; which sequences are accepted and where each piece ends up is a statement about an unbounded language.",
  [QG, C, H, QA], [("combinator functions and their mapping closures", QG), ("values, types, arguments, directives", C), ("token matchers", H)],
  ["graphql_parser::query::parse_query", "public fields of the query AST"])
p("P02", "Schema parsing is faithful to the type-system grammar",
  "parse_schema accepts a token sequence exactly when it is a type-system document (schema, type, directive definitions and type extensions, with descriptions, interfaces, arguments, defaults, directives and locations), and rejects every other: in particular an extension that adds nothing, a schema block with a duplicate or unknown root operation, and an unknown directive location. The tree it returns holds every description, name, interface, member, argument, default, directive and location of the text in its own place and in source order, with nothing dropped, duplicated, invented or misplaced. (The grammar is that of the October 2021 specification in this library's dialect: directive arguments may use variables, an enum value may be any name, a schema block or a list of directive locations may be empty and a schema block has neither description nor extension.)",
  ["inputs"], "all token sequences", "The tests parse about twenty-five fixed documents and no rejected one; acceptance and placement range over an unbounded language.",
  [SG, C, H, SA], [("combinator functions and their mapping closures", SG), ("extension and root-operation checks", SG), ("values, types, directives", C)],
  ["graphql_parser::schema::parse_schema", "public fields of the schema AST"])
p("P03", "Printing a query and parsing it again gives the same document",
  "For every document parse_query accepts and every formatting style, parsing the formatted text succeeds and gives a document equal to the first except for positions (a float may come back as another literal of the same numeric value). The same holds for what Display prints.",
  ["inputs", "configurations"], "all accepted query documents, all styles", "Round-trip tests cover fixed files in two styles; a field omitted or glued only in some combination of optional parts escapes them.",
  [QF, F, QG, C], [("Displayable implementations of the query AST", QF), ("Formatter primitives", F)],
  ["query::Document::format", "Display of the query AST", "parse_query"])
p("P04", "Printing a schema and parsing it again gives the same document",
  "For every document parse_schema accepts and every formatting style, parsing the formatted text succeeds and gives a document equal to the first except for positions (a float may come back as another literal of the same numeric value). The same holds for what Display prints.",
  ["inputs", "configurations"], "all accepted schema documents, all styles", "Round-trip tests cover fixed files in the default style only.",
  [SF, QF, F, SG], [("Displayable implementations of the schema AST", SF), ("shared value/type/directive printers", QF), ("Formatter primitives", F)],
  ["schema::Document::format", "Display of the schema AST", "parse_schema"])
p("P05", "Formatting style changes layout only",
  "Two styles (any indentation width, multi-line arguments on or off) format the same document to texts with the same sequence of significant tokens; only spaces, line breaks and commas differ, outside and at the margins of block strings.",
  ["inputs", "configurations"], "all documents, all pairs of styles", "Four tests use a second style, on four documents.",
  [F, QF, SF], [("style-dependent Formatter methods", F)], ["Style", "Document::format"])
p("P06", "String literals decode to exactly the characters they denote",
  "Every escape in a quoted string decodes to the code point GraphQL assigns to it, \\uXXXX needs four hexadecimal digits that are no surrogate, any other escape is a parse error, and all other characters are kept verbatim; in a block string, whose lines end with LF or CRLF, only \\\"\"\" is an escape, the common indentation (spaces and tabs) of the lines that are not blank, the first line excepted, is removed from all lines but the first, blank first and last lines are removed, lines are joined with LF, and everything else is kept.",
  ["inputs"], "all string and block string literals", "Six unit tests use a handful of literals; three of eight escapes are never exercised.",
  [C], [("unquote_string", C), ("unquote_block_string", C)], ["string values and descriptions in the AST"])
p("P07", "Any string value survives printing and parsing",
  "For every string the formatter can be given as a value or description (any Unicode content, at any indentation), the literal it writes is lexed as one string token and decodes to the same string.",
  ["inputs", "configurations"], "all Unicode strings, all nesting depths and indentation widths", "Two literals are round-tripped by tests; none has control characters, non-BMP characters, carriage returns, leading blanks or trailing newlines.",
  [F, C, T], [("Formatter::write_quoted", F), ("unquote_string / unquote_block_string", C), ("string token recognition", T)],
  ["Display and format of documents with strings"])
p("P08", "Tokens are recognised exactly as the lexical grammar says",
  "Splitting of text into names, punctuators, integers, floats, strings and block strings follows the GraphQL lexical grammar: every lexeme of a class is recognised whole as that class, by longest match, and any other text is reported as an error instead of being accepted or mis-split.",
  ["inputs"], "all texts", "About fifty lexeme examples are tested; character classes and number shapes range over all of Unicode and unbounded lengths.",
  [T], [("TokenStream::take_token", T), ("check_int / check_dec / check_exp / check_float", T)], ["parse_query, parse_schema, minify_query"])
p("P09", "Exactly the insignificant characters are ignored, and all input is read",
  "Byte order marks, spaces, tabs, line ends, commas and comments (from # to the end of its line) between tokens never change the parsed document apart from positions, no other character is ever skipped, and a parse succeeds only if the input was consumed to its end.",
  ["inputs"], "all texts", "Tests insert a few commas and comments in fixed places.",
  [T, QG, SG], [("TokenStream::skip_whitespace", T), ("eof() after the document", QG + ", " + SG)], ["parse_query, parse_schema"])
p("P10", "Minifying keeps the document and drops everything insignificant",
  "For every source that is an executable or type-system document, minify_query returns a text that parses to the same document apart from positions, has the same tokens verbatim in the same order, and contains no comment, comma or whitespace outside string tokens except single spaces that separate two tokens that are not punctuators; text that cannot be tokenised is an error.",
  ["inputs"], "all source documents", "One document and one error are tested; whether two tokens glue depends on every pair of token kinds.",
  [M, T], [("minify_query loop", M)], ["minify_query"])
p("P11", "Nesting depth is limited on every recursive construct",
  "Input whose brackets, braces and parentheses nest deeper than the fixed limit is rejected with an error on every entry point and through every recursive construct (selection sets, lists, objects, types, arguments), so the parser's stack depth is bounded for all inputs; input that nests no deeper than the limit is never rejected for its depth or its length.",
  ["inputs"], "all inputs, all mixtures of nesting constructs", "One test builds one deep document; other recursion paths and long flat documents are not exercised.",
  [T, QG, SG, C], [("recursion_limit in TokenStream::take_token and its token cache", T), ("recursive parser functions", QG + ", " + C)],
  ["parse_query, parse_schema, consume_definition, minify_query"], [("recursion_limit", "remaining open brackets", T)])
p("P12", "Parsing and minifying never panic",
  "parse_query, parse_schema, consume_definition and minify_query return Ok or Err for every input string: no slice, index, arithmetic, unwrap or unreachable branch can panic.",
  ["inputs"], "all UTF-8 strings, including ill-formed documents, multi-byte characters and unterminated tokens", "Fuzz-like inputs are not part of the tests; panics hide in byte offsets inside multi-byte characters and in odd token boundaries.",
  [T, C, H, QG, SG, M], [("byte-offset arithmetic and slicing", T), ("string unquoting", C), ("description placement", SG)],
  ["parse_query, parse_schema, consume_definition, minify_query"])
p("P13", "Formatting never panics",
  "Formatting or displaying any document obtained from a parser, with any style, returns a string: no index, arithmetic, unwrap or indentation underflow or overflow can panic.",
  ["inputs", "configurations"], "all parsed documents, all styles", "Tests format fixed documents with indentation two.",
  [F, QF, SF], [("Formatter indentation", F), ("first-element indexing in list printers", QF + ", " + SF)], ["Document::format, Display"])
p("P14", "Positions are where the elements start",
  "Every position in a parsed tree is the one-based line and column of the first token the element's parser reads, with a line counted per line feed and per carriage return that alone ends a comment; between tokens a column is counted per space, comma and other character, eight per tab and none for carriage returns and byte order marks, and inside a token one per character since its last line feed; selection-set spans are the positions of the opening and closing brace, and positions do not depend on what follows.",
  ["inputs"], "all accepted documents, all layouts of whitespace, comments and multi-line tokens", "Two tests look at positions, in two one-line documents.",
  [T, QG, SG, C], [("position bookkeeping in take_token, skip_whitespace, update_position", T), ("position() in each production", QG + ", " + SG + ", " + C)],
  ["position and span fields of the AST"], [("position", "line and column of the next token", T)])
p("P15", "The choice of text type does not change the document",
  "Parsing the same input with &str, String or Cow<str> as text type succeeds or fails alike and gives documents with the same structure and the same text in every name, and borrowed names are slices of the input.",
  ["inputs", "configurations"], "all inputs, all text types", "Almost all tests use String; none compares two text types.",
  [C, H, QG, SG], [("Text trait and name()", C + ", " + H)], ["parse_query::<T>, parse_schema::<T>"])
p("P16", "Detaching a document from its input is sound and changes nothing",
  "Converting a document or value to its owned 'static form keeps every variant, name, number, string, element and key exactly, and an owned document contains no borrow of the source text, so that using it after the source is gone is memory safe; nothing else in the library needs unsafe code.",
  ["inputs", "programs"], "all documents and all programs that drop the source after the conversion", "No test calls these conversions; soundness is about every field type reachable from a document.",
  [QA, SA, C], [("Document::into_static (transmute)", QA + ", " + SA), ("Value::into_static", C)], ["Document::into_static, Value::into_static"])
p("P17", "Consuming one definition returns exactly the rest of the input",
  "When consume_definition succeeds it returns the definition that parse_query would build first, and the remainder is exactly the suffix of the input that starts at the next significant character after that definition, whatever follows, so that repeated calls walk a document definition by definition.",
  ["inputs"], "all inputs and all trailing text, GraphQL or not", "Three inputs are tested.",
  [QG, T], [("consume_definition", QG), ("TokenStream::offset", T)], ["query::consume_definition"])
p("P18", "Directive locations and their names correspond one to one",
  "Each directive location has its own GraphQL name, parsing a location's name gives that location back and any other text is rejected, and every location is either an executable or a type-system location, never both, as GraphQL classifies it.",
  ["inputs"], "all locations and all strings", "Four of nineteen names occur in test documents; the classification is never called.",
  [SA, SG], [("DirectiveLocation::as_str / from_str / is_query / is_schema", SA)], ["schema::DirectiveLocation"])
p("P19", "Numbers are exact or rejected",
  "An integer literal becomes exactly the 64-bit integer it denotes or the parse fails; a float literal becomes the nearest finite double or the parse fails; no literal is wrapped, truncated, or given another kind. Printing a number writes a literal of the same numeric value that the parser accepts.",
  ["inputs"], "all number literals", "Two numbers near no boundary and one overflow are tested.",
  [C, QF, T], [("int_value, float_value", C), ("Value printing", QF)], ["Value::Int, Value::Float"])
p("P20", "Results depend only on the arguments",
  "Parsing, minifying, converting and formatting are pure: the result depends only on the arguments, nothing outside them is read or written (no files, environment, output, clock, threads or global state), and documents can be shared between threads and used concurrently.",
  ["inputs", "schedules", "histories"], "all call histories and all interleavings of calls", "Tests run each call once in a fresh process.",
  ["src"], [("absence of statics, interior mutability and I/O", "src/**")], ["all public functions"])
p("P21", "Printed layout is canonical",
  "In formatted text every definition, field, selection, member value and schema operation (with multiline arguments also every argument of a field or directive and every element of a list or object value) is on its own line, each line is indented by exactly the nesting depth times the configured width, indentation returns to its previous value at the end of every element, and definitions end with a line break and are separated by one blank line.",
  ["inputs", "configurations"], "all documents, all styles", "Golden files cover some combinations at the default width only.",
  [F, QF, SF], [("indent / endline / start_block / end_block pairing", F), ("Displayable implementations", QF + ", " + SF)], ["Document::format, Display"])
p("P22", "Parsing is a single forward pass with one token of lookahead",
  "At every choice the next token alone decides which alternative is parsed, and no consumed token is read again, so parsing time is linear in the input for every document and no input causes exponential backtracking.",
  ["inputs"], "all inputs", "Tests do not measure work; ambiguity of choices is a property of the grammar, not of samples.",
  [QG, SG, C, T], [("choice / or / optional / many structure", QG + ", " + SG + ", " + C), ("token cache", T)], ["parse_query, parse_schema"])
p("P23", "Rejections say where and what",
  "Every rejected document gives an error message that names the line and column of the first unacceptable token and lists what would have been accepted there.",
  ["inputs"], "all rejected inputs", "Four messages are compared.",
  [H, QG, SG, "src/query/error.rs", "src/schema/error.rs"], [("add_error of the token matchers", H), ("error merging in the combinator library", "combine")], ["ParseError Display"])
p("P24", "Time and memory stay proportional to the input",
  "Parsing, minifying and formatting use time and memory bounded by a constant factor of the size of input and output.",
  ["inputs"], "all inputs", "Tests have no cost measurements.",
  [T, F, M], [("token scan loops", T)], ["all public functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
