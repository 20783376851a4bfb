"""A solver that is used again behaves like a new one."""
import contextlib, io, warnings
import numpy as np
from vh.oracle import need, close


def check(fresh, ops, go, what, atol=1e-5):
    """`go(solver, op)` gives an array (or a tuple of arrays)."""
    old = fresh()
    for q, o in enumerate(ops):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want = go(fresh(), o)
            got = go(old, o)
        for a, b in zip(got, want) if type(want) is tuple else [(got, want)]:
            need(np.shape(a) == np.shape(b), '%s: call %d of the same solver gives shape %s', what, q + 1, np.shape(a))
            close(a, b, '%s: call %d of the same solver' % (what, q + 1), rtol=0, atol=atol)
