from . import order

TECHNIQUE = "effect lint by resolved name over every module taking part in reading, plus dataflow over the generator's creation, seeding and restoring"
NOTE = "Randomness inside user functions and image transforms applied by them is not analysed (C11 covers seeded ones)."


def check(p, cx):
    order.check(p, cx)
