"""C19: books, verses and ranges are ordered by position, in any history."""
from ..history import History


class PROP(History):
    ID = "C19"
    CATS = ("order",)

