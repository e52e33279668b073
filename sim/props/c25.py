"""C25: verse-0 conversions and copies change nothing else, in any history."""
from ..history import History


class PROP(History):
    ID = "C25"
    CATS = ("conv",)
