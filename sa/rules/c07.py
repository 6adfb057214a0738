from . import keys

TECHNIQUE = "provenance dataflow of restored samples (function, sample number, inputs) and typestate of the active worker"
NOTE = "Decides which functions run, on which inputs and under which number; that the functions are repeatable is the user's declaration."


def check(p, cx):
    keys.c07(p, cx)
