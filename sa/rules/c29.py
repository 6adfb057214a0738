"""C29: cookers."""
from . import cookers

TECHNIQUE = "case analysis of the matching conditions and path analysis of the choice of the cooker and of the pipeline"
NOTE = "user conditions and cook functions are uninterpreted; subflavors are compared by single entries"


def check(p, cx):
    cookers.check(p, cx)
