from . import slots

TECHNIQUE = "index provenance: every subscript of a per-worker list is traced to the logical worker number over all paths; slot counts and the number itself by constant evaluation of the derived terms"
NOTE = "Lists per worker kept by user classes are not analysed; the assignment of shards to slots (sharder) is N01."


def check(p, cx):
    slots.check(p, cx)
