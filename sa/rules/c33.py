from . import takes

TECHNIQUE = "monitored abstract interpretation: typestate of samples and of the containers keeping them"
NOTE = ("Containers are told apart by the attribute (or as the group local to the iterator); members of a collection are summarised. "
        "That samples given to a user function come back is up to that function.")


def check(p, cx):
    takes.check(p, cx)
