from . import keys

TECHNIQUE = "provenance dataflow of restore keys: component layout written by __iter__ against the one read by restore_sample"
NOTE = "Keys of datasets outside the package and the samples' own handling of keys are not covered; component values are compared by provenance, not numerically."


def check(p, cx):
    keys.c06(p, cx)
