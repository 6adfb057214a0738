from . import options

TECHNIQUE = "monitored abstract interpretation: dependence of arguments and attributes on options of the same name"
NOTE = ("Decides that an option is handed on and kept, by dependence of the value on the option; that what receives it does the "
        "right thing with it is the matter of the other properties.")


def check(p, cx):
    options.check(p, cx)
