"""C20: reported configuration."""
from . import reported

TECHNIQUE = "data flow from constructor parameters to the values config() returns, per concrete class and constructor of its bases"
NOTE = "error handlers and classes proven to hand on their samples unchanged are exempt; values inside closures count as not reported"


def check(p, cx):
    reported.check(p, cx)
