"""C30: exclusions."""
from . import excludes

TECHNIQUE = "case analysis of the split definition, path analysis of the shard reader, dataflow of the exclusions to all readers"
NOTE = "brace expansion and YAML loading are uninterpreted"


def check(p, cx):
    excludes.check(p, cx)
