from . import state

TECHNIQUE = "alias/escape dataflow from live attributes into saved states"
NOTE = 'Decides that no mutable object reachable from the saved state is one the live dataset changes in place (allocation-site aliasing; objects of user types are not followed).'


def check(p, cx):
    state.c03(p, cx)
