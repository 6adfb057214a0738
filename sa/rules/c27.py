"""C27: the retrying stream."""
from . import parts, streams

TECHNIQUE = "typestate of the open file relative to the stream position, with fault injection at every file operation, over all paths of read and seek"
NOTE = "what a stream delivers after its attempts are used up is not specified"


def check(p, cx):
    streams.check(p, cx)
    parts.check(p, cx)
