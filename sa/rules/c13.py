from . import progress

TECHNIQUE = "typestate over all paths of every iteration function: fetch, advance, hand out; no advance between a hand-out and the next fetch"
NOTE = "That the advanced position is the arithmetically right one is covered only for the shard reader's counters; what restore does with it is C01-C05."


def check(p, cx):
    progress.check(p, cx)
