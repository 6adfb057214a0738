from . import paths

TECHNIQUE = "typestate of the storage handle over all paths of every path operation; entry points of forked processes found from the call sites that start them"
NOTE = "Assumes the storage library keys its handles by process as it documents; a fork in the middle of iterating a glob is not covered."


def check(p, cx):
    paths.check_fork(p, cx)
