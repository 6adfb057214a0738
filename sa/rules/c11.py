from . import seeding

TECHNIQUE = "typestate of the global random generators (outer / inner / stale) with failures injected at every step of the user function; library coverage of seed, save and restore"
NOTE = "Random libraries other than torch (CPU), numpy and random are not seeded by the package and not covered."


def check(p, cx):
    seeding.check(p, cx)
