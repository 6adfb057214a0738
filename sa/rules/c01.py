from . import resume, state

TECHNIQUE = "interprocedural provenance dataflow: advanced attributes vs. save/merge/restore field chains"
NOTE = 'Decides that every attribute advanced while iterating flows through save, merge and restore back to where it came from, on every path of the source; not that the values then produce equal samples (user functions are trusted to be deterministic).'


def check(p, cx):
    state.c01(p, cx)
    resume.check(p, cx)
