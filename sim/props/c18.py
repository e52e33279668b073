"""C18: only existing verses and proper ranges can be made, in any history."""
from ..history import History


class PROP(History):
    ID = "C18"
    CATS = ("valid",)
    N = 12
