from . import active

TECHNIQUE = "typestate (activate/deactivate, push/pop, counter advance) over all paths with failures injected at every call and GeneratorExit at every yield"
NOTE = "The user's own use of the worker config outside the package is not analysed."


def check(p, cx):
    active.check(p, cx)
