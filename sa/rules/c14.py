from . import indexfile

TECHNIQUE = "typestate of the index file: names by term evaluation, the writer's exit run for both outcomes, exception flow at every use"
NOTE = "A crash of the machine between write and move is up to the file system; a failure of closing the temporary file itself is not modelled."


def check(p, cx):
    indexfile.check(p, cx)
