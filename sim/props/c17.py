"""C17: splitting partitions a range, in any history."""
from ..history import History


class PROP(History):
    ID = "C17"
    CATS = ("split",)

