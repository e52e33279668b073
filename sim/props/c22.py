"""C22: an error of the parser points at the part that cannot be read, in any history."""
from ..history import History


class PROP(History):
    ID = "C22"
    CATS = ("error",)
    SEPS = 0.15
