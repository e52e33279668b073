"""C23: formatting options change the spelling and nothing else, in any history."""
from ..history import History


class PROP(History):
    ID = "C23"
    CATS = ("style",)
    SEPS = 0.15
