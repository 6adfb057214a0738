from . import errors

TECHNIQUE = "exception-flow simulation: one abstract run of every iteration method per user call and exception class, typestate of the caught error"
NOTE = "Exception classes are sampled by kind (8 system, 6 ordinary, skip); errors raised inside third-party code called by the package outside user functions are not simulated."


def check(p, cx):
    errors.c08(p, cx)
