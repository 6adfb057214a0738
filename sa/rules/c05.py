from . import state

TECHNIQUE = "abstract interpretation of merge_states with idle workers and slot-order analysis"
NOTE = 'Decides slot order and the defaults of idle workers in every merged state, and that merging never reads a missing state.'


def check(p, cx):
    state.c05(p, cx)
