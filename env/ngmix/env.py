"""Environment answers.  A check installs a handler with `use`; without one the
stand-ins give their default (successful) answers."""
import contextlib

_handler = None
log = []


def ask(kind, **info):
    """what should this environment call do?  None means: default answer."""
    if _handler is None:
        return None
    return _handler(kind, info)


@contextlib.contextmanager
def use(handler):
    global _handler
    old = _handler
    _handler = handler
    del log[:]
    try:
        yield log
    finally:
        _handler = old
