"""C21: metadataset settings."""
from . import meta

TECHNIQUE = "interprocedural constant and provenance propagation over all loader classes, per combination of outer and own setting"
NOTE = "the combination rules are decided per loader class and level; dataset.yaml contents are data"


def check(p, cx):
    meta.check(p, cx)
