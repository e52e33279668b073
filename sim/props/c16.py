"""C16: verse arithmetic follows verse order, in any history."""
from ..history import History


class PROP(History):
    ID = "C16"
    CATS = ("arith",)

