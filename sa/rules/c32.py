from . import counting

TECHNIQUE = "monitored abstract interpretation: linear forms of stored counts, case analysis of comparisons on differences"
NOTE = ("Decides the arithmetic of saved counts from the linear form of what is stored and from which differences between index and count "
        "each branch admits; a count kept in a form other than an integer is not examined.")


def check(p, cx):
    counting.check(p, cx)
