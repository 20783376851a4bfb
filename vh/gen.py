"""Hypothesis strategies; every case is plain JSON."""
from hypothesis import strategies as st
from .oracle import nparams


def reals(scale=1.):
    """Numbers in [-scale, scale] with round values over-represented."""
    return st.one_of(
        st.floats(-scale, scale, allow_nan=False, allow_infinity=False, width=64),
        st.integers(-1000, 1000).map(lambda i: i * scale / 1000.),
        st.sampled_from([0., scale, -scale, scale / 2]))


def smooth(scale=1.):
    """Numbers in [-scale, scale] spread evenly, rarely exactly zero."""
    return st.integers(-1000, 1000).map(lambda i: i * scale / 1000.)


def vec(n, elem):
    return st.lists(elem, min_size=n, max_size=n)


def theta(n, scale=1., order=2, elem=None):
    e = elem if elem is not None else reals(scale)
    return vec(nparams(n, order), e)


def spins(n, values=(-1, 1)):
    return vec(n, st.sampled_from(list(values)))


def sample(n, lo=1, hi=12, values=(-1, 1)):
    return st.lists(spins(n, values), min_size=lo, max_size=hi)


seeds = st.integers(0, 2**31 - 1)


@st.composite
def built(draw, f):
    """Turn a function of draw into a strategy."""
    return f(draw)


@st.composite
def large(draw, lo, hi, rows=30, scales=(.05, .5, 3.), vals=((-1, 1), (0, 1)), **more):
    """Sizes beyond what is drawn number by number: `bulk` makes the arrays from the seed."""
    c = dict(n=draw(st.integers(lo, hi)), R=draw(st.integers(1, rows)), scale=draw(st.sampled_from(scales)),
             vals=list(draw(st.sampled_from(vals))), seed=draw(seeds), sparse=draw(st.booleans()))
    for k, s in more.items():
        c[k] = draw(s)
    return c


def bulk(case, m, rows=None):
    """(m parameters, a sample) of a `large` case; half of the parameters are zero if sparse."""
    import numpy as np
    r = np.random.RandomState(case['seed'])
    th = r.uniform(-1, 1, m) * case['scale']
    if case['sparse']:
        th *= r.rand(m) < .5
    v = np.array(case['vals'])
    X = v[r.randint(0, len(v), (rows or case['R'], case['n']))]
    if case['sparse']:     # columns that hardly vary and repeated rows
        X[:, r.rand(case['n']) < .3] = v[-1]
        X = X[r.randint(0, len(X), len(X))]
    return th, X
