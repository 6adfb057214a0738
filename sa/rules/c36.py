from . import epochs

TECHNIQUE = "monitored abstract interpretation: typestate of the places of the sample loader"
NOTE = "The sizes of slices are taken as positive. That drawing by weights reaches every place is a matter of probability."


def check(p, cx):
    epochs.check(p, cx)
