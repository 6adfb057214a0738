from . import members

TECHNIQUE = "typestate of archive members over all paths of indexing and reading, constant evaluation of the name rules on all short names, linear forms of positions"
NOTE = "Regular expressions are compared with the rule on all names up to 7 characters over the relevant alphabet, which covers every combination of dots, slashes and underscores they distinguish."


def check(p, cx):
    members.check(p, cx)
