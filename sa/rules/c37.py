from . import collate

TECHNIQUE = "abstract interpretation: provenance of the elements of lists and dicts built from the samples, per configured case"
NOTE = "Tensor operations are taken to do what their names say; user defined batchers are the user's."


def check(p, cx):
    collate.check(p, cx)
