"""C24: set algebra between references is exact, in any history."""
from ..history import History


class PROP(History):
    ID = "C24"
    CATS = ("sets",)
