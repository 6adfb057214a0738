from . import paths

TECHNIQUE = "ownership: stores reach only objects created in the operation; evaluation of equality for every combination of equal and different parts"
NOTE = "The operations of pathlib on the inner path are trusted."


def check(p, cx):
    paths.check_values(p, cx)
