"""C26: the loader's own position."""
from . import position

TECHNIQUE = "path-sensitive value tracking of the loader's counters through handing out, saving and restoring; linear forms of the workers' answers"
NOTE = "the order in which torch's DataLoader takes samples from its workers is taken as given"


def check(p, cx):
    position.check(p, cx)
