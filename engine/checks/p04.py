"""As P03, for type-system documents."""
import prcheck
from checks import p03

LEVEL = "other"
ASSUMES = p03.ASSUMES
EXPLANATION = p03.__doc__


def run(ctx): prcheck.roundtrip(ctx, "Schema")
