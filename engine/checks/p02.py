"""As P01, for the parser of type-system documents."""
from checks import p01

LEVEL = "other"
ASSUMES = p01.ASSUMES
EXPLANATION = p01.__doc__.replace("executable documents", "type-system documents")


def run(ctx):
    p01.run(ctx, "parse_schema", "SchemaDocument", (), (35, 100, 4))
