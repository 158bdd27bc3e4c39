"""The formatter is interpreted abstractly on the trees the grammar's alternatives build, for every style: loops over lists of any
length, every part of the tree named after the token, list or rule it comes from. What it writes, cut into tokens, is an automaton
over the grammar's own letters (token and the field of the tree it comes from, end of a list element and its constructors, result),
and must be contained in the automaton of the grammar rule: every text the formatter can write for a tree is then a text the parser
reads back as that tree. Recursive parts are handled by induction over the rules."""
import prcheck

LEVEL = "other"
ASSUMES = ["the parser follows the reference grammar (P01, P02) and the lexer the lexical grammar (P08, P09)",
           "a string literal is written and read back as one string token of the same value (P06, P07), a number as one number token of the same value (P19)",
           "usize has 64 bits"]


def run(ctx, doc="Query"): prcheck.roundtrip(ctx, doc)
