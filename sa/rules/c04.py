from . import state

TECHNIQUE = "call-chain obligations over all nested dataset members"
NOTE = 'Decides that save, merge, restore and reset are called for every nested dataset member, with the state that belongs to it.'


def check(p, cx):
    state.c04(p, cx)
