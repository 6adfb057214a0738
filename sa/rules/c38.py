from . import pipeline

TECHNIQUE = "abstract interpretation per setting: the built pipeline as a term of nested stages, compared with the configured ones"
NOTE = ("Settings are sampled at the values where stages switch on and off; whether a function counts as overridden is decided from the "
        "comparison with the class's function.")


def check(p, cx):
    pipeline.check(p, cx)
