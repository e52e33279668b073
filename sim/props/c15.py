"""C15: a name finds its one book, in any history."""
from ..history import History


class PROP(History):
    ID = "C15"
    CATS = ("name",)
    NAMES = 0.8
    N = 12
