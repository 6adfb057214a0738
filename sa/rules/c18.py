from . import commands

TECHNIQUE = "lock typestate over all paths of the worker's iteration and of its command thread, including closed generators and failures"
NOTE = "The set of guarded attributes is computed: read by a command and written by iteration. The worker's own number, constant in a process, is exempt."


def check(p, cx):
    commands.check_lock(p, cx)
