"""C31: collectives."""
from . import collectives

TECHNIQUE = "path analysis comparing the sequence of collectives on all paths that agree on the shared decisions; dataflow of the lists"
NOTE = "torch.distributed is taken by its documented contract; a rank which raises takes the job down and is not compared"


def check(p, cx):
    collectives.check(p, cx)
