"""C25: buffered samples and their restore keys."""
from . import lockstep

TECHNIQUE = "typestate analysis pairing each change of the samples with that of the keys on every path; provenance of the restored samples"
NOTE = "an exception inside a single list operation (out of memory) is not followed"


def check(p, cx):
    lockstep.check(p, cx)
