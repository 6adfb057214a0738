from . import naming

TECHNIQUE = "abstract interpretation of the path operations per kind of path; which part of which path reaches the storage, and typestate of resolving"
NOTE = "What the storage libraries (fsspec, s3fs) and pathlib do with the names they are given is trusted."


def check(p, cx):
    naming.check(p, cx)
