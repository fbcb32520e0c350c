import gc, math
from mcpy import *  # noqa: F401,F403
import mcpy


def near(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(a, int) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if len(a) != len(b):
        return False
    return all(near(x, y, tol) for x, y in zip(a, b))


def expect(got, want, what, tol=1e-9):
    observe(repr(got))
    note("%s = %r" % (what, got))
    check(near(got, want, tol), "%s is %r, expected %r" % (what, got, want))


def raises(fn, what, ok=None, exc=Exception):
    """the call has to raise; ok(result) may accept a result instead"""
    try:
        r = fn()
    except (Skip, Violation):
        raise
    except RecursionError:
        check(False, "%s recurses without end" % what)
    except Exception as e:
        check(isinstance(e, exc), "%s raises %s" % (what, type(e).__name__))
        observe(type(e).__name__)
        note("%s raises %s" % (what, type(e).__name__))
        step()
        return
    check(ok is not None and ok(r), "%s returns %s instead of raising an exception" % (what, show(r)))


def show(r):
    try:
        return repr(list(r))
    except Exception:
        return repr(r)


def churn():
    """collects what nobody refers to and reuses the freed memory"""
    gc.collect()
    junk = [bytearray(b"\x5a" * n) for n in (8, 16, 24, 32, 48, 64, 72, 96, 128) for _ in range(3)]
    del junk
