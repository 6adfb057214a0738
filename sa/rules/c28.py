"""C28: one worker setup per pipeline."""
from . import setups

TECHNIQUE = "must-check analysis of all constructors taking datasets; case analysis of the equality of setups"
NOTE = "assertions are taken to be enabled"


def check(p, cx):
    setups.check(p, cx)
