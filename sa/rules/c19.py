from . import commands

TECHNIQUE = "typestate of a command (taken, executed, answered) over all paths of the command thread and of the loader's sending function"
NOTE = "A worker that dies without answering is not covered; the loader's timeouts belong to the multiprocessing library."


def check(p, cx):
    commands.check_answers(p, cx)
