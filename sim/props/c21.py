"""C21: a reference string reads as what it says, in any history."""
from ..history import History


class PROP(History):
    ID = "C21"
    CATS = ("parse",)
    NAMES = 0.5
    SEPS = 0.15
