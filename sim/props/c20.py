"""C20: counts, bounds and relations agree with the verses, in any history."""
from ..history import History


class PROP(History):
    ID = "C20"
    CATS = ("count",)
    N = 5
