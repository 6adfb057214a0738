"""C24: claims to restore samples."""
from . import claims

TECHNIQUE = "path-sensitive implication analysis of the claims, provenance of the declarations from the decorator to the wrapper"
NOTE = "functions named in dataset configurations (sample loaders, part filters, joiners, cookers) are taken as repeatable, as the format defines them"


def check(p, cx):
    claims.check(p, cx)
