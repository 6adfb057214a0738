from . import identity

TECHNIQUE = "abstract interpretation per process of small jobs: the terms of worker numbers, seed texts and configuration evaluated and compared"
NOTE = ("Jobs of up to 12 ranks and 12 workers are enumerated, larger ones are not. That two hashes of different texts differ is "
        "assumed.")


def check(p, cx):
    identity.check(p, cx)
