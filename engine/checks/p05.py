"""From the same abstract interpretation as P03 and P04: for every printing function the automaton of the tokens it writes is built
for every style (all combinations of switches; widths unknown; conditions on widths split), layout dropped, and the automata of all
styles must be equal. The form and contents of a string literal are not allowed to depend on the style's switches."""
import prcheck

LEVEL = "other"
ASSUMES = ["usize has 64 bits", "a string literal denotes the same value at any indentation (P07)"]


def run(ctx):
    prcheck.styles(ctx, "Query")
    prcheck.styles(ctx, "Schema")
