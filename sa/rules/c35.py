from . import sharding

TECHNIQUE = "abstract interpretation over affine equalities (prefix sums of shard sizes, inductive loop relations), polynomial normal forms with floor division"
NOTE = ("Decides that ranges, parts and slices make up the whole, for every list of shard sizes and number of workers; functions written in a "
        "form the analysis does not follow are named in the notes and not decided. Shards given in are taken to be whole (offset 0).")


def check(p, cx):
    sharding.check(p, cx)
