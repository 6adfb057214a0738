"""C22: opened files are released."""
from . import handles

TECHNIQUE = "typestate analysis of opened files, archives, stacks and pools over all paths, with every call and yield possibly failing"
NOTE = "iterators left to the garbage collector and the debug log of WorkerConfig are not followed; closing itself is assumed not to fail"


def check(p, cx):
    handles.check(p, cx)
