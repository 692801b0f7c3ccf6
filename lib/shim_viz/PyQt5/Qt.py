class _Any:
    def __init__(self, *a, **k):
        pass


def pyqtSlot(*a, **k):
    return lambda f: f


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (_Any,), {})
