from . import state

TECHNIQUE = "interprocedural must-store dataflow of restore_state(None) compared with __init__"
NOTE = "Decides that restore_state(None) stores every attribute that iterating or restoring changes, with the constructor's value, on every path."


def check(p, cx):
    state.c02(p, cx)
