"""Observation of one operation: refused, accepted, accepted with a warning."""
import contextlib
import logging
import warnings


class _Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, record):
        self.n += 1


_catch = _Catch()
logging.getLogger().addHandler(_catch)
logging.getLogger().setLevel(logging.WARNING)
logging.lastResort = None


def attempt(fn):
    """(outcome, result): outcome in ok, warned, rejected."""
    _catch.n = 0
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            val = fn()
        except Exception as e:
            return "rejected", e
    return ("warned" if _catch.n + len(ws) else "ok"), val


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield
