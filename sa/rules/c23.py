"""C23: configurations conform to their declared types."""
from . import typed

TECHNIQUE = "path-sensitive dataflow: each way out of the conversion is judged by the tests passed on it and by where the parts of its value come from"
NOTE = "types the converter does not know are passed through by design; whether bool counts as int is Python's decision"


def check(p, cx):
    typed.check(p, cx)
