"""C04: state enumeration and number representation."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, same, states, raises

P = Prop('C04', 'exhaustive over small (n, k); generated (number, base) biased to powers of the base '
         'and to large numbers; a case is non-trivial when it has more than one digit or state')
DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def digits(i, base):
    out = []
    while True:
        i, r = divmod(i, base)
        out.append(DIGITS[r])
        if i == 0:
            return out[::-1]


@P.sub('binary', cases=lambda tier: [dict(n=n, sym=s) for n in range(1, 13 if tier == 'quick' else 17)
                                     for s in (False, True)], exhaustive=True)
def binary(case, ctx):
    from coniii.utils import bin_states, xbin_states
    n, sym = case['n'], case['sym']
    want = states(n, sym)
    same(bin_states(n, sym), want, 'bin_states')
    got = list(xbin_states(n, sym))
    same(np.array(got), want, 'xbin_states')
    if n <= 3:
        raises(lambda: bin_states(-n), 'bin_states of a negative size')
        raises(lambda: bin_states(30 + n), 'bin_states of too large a size')


@P.sub('potts', cases=lambda tier: [dict(n=n, k=k) for k in range(2, 37) for n in range(1, 13)
                                    if k**n <= (2500 if tier == 'quick' else 60000)], exhaustive=True)
def potts(case, ctx):
    from coniii.utils import xpotts_states
    n, k = case['n'], case['k']
    count = 0
    for i, s in enumerate(xpotts_states(n, k)):
        s = list(s)
        d = digits(i, k)
        need(s == ['0'] * (n - len(d)) + d, 'state %d of n=%d, k=%d is %s', i, n, k, s)
        count += 1
    need(count == k**n, '%d states instead of %d', count, k**n)
    ctx.tag('k>10', k > 10)


@P.sub('binary_large', cases=lambda tier: [dict(n=n, sym=s) for n in ((17,) if tier == 'quick' else (17, 18, 19, 20)) for s in (False, True)], exhaustive=True)
def binary_large(case, ctx):
    from coniii.utils import bin_states
    n, sym = case['n'], case['sym']
    same(bin_states(n, sym), states(n, sym), 'bin_states')


@st.composite
def number(draw):
    base = draw(st.integers(2, 36))
    top = 0
    while base ** (top + 1) < 2**62:
        top += 1
    kind = draw(st.integers(0, 3))
    if kind == 0:
        i = draw(st.integers(0, 5000))
    elif kind == 1:
        i = draw(st.integers(0, 2**62))
    else:
        e = draw(st.integers(0, top))
        i = draw(st.integers(1, base - 1)) * base**e + draw(st.integers(-3, 3))
        i = max(0, min(i, 2**62))
    return dict(base=base, i=i)


@P.sub('base_repr', number, quick=4000, thorough=200000)
def base_repr_(case, ctx):
    from coniii.utils import base_repr
    i, base = case['i'], case['base']
    got = list(base_repr(i, base))
    need(got == digits(i, base), 'base_repr(%d, %d) = %s instead of %s', i, base, got, digits(i, base))
    ctx.trivial(i < base)
    ctx.tag('base>10', base > 10)
    ctx.tag('above 2^31', i > 2**31)
    e = 0
    while base**e < i:
        e += 1
    ctx.tag('next to a power', min(abs(base**e - i), abs(base**max(e - 1, 0) - i)) <= 1)


@P.sub('base_repr_small', cases=[dict(base=b, lo=0, hi=3000) for b in range(2, 37)], exhaustive=True)
def base_repr_small(case, ctx):
    from coniii.utils import base_repr
    for i in range(case['lo'], case['hi']):
        got = list(base_repr(i, case['base']))
        need(got == digits(i, case['base']), 'base_repr(%d, %d) = %s', i, case['base'], got)


@P.sub('lazy', cases=[dict(n=n, sym=s) for n in (20, 33, 40, 62, 63, 64, 80) for s in (False, True)], exhaustive=True)
def lazy(case, ctx):
    """The generators yield the first states of systems too large to be listed."""
    import itertools
    from coniii.utils import xbin_states
    n, sym = case['n'], case['sym']
    for i, s in enumerate(itertools.islice(xbin_states(n, sym), 300)):
        want = np.array([int(c) for c in format(i, '0%db' % n)])
        same(s, want * 2 - 1 if sym else want, 'state %d of %d spins' % (i, n))
    need(i == 299, 'only %d states', i + 1)


@P.sub('lazy_potts', cases=[dict(k=k, n=n) for k in (2, 3, 5, 10, 11, 36) for n in (8, 12, 20, 39, 61)
                            if 5000 < k**n < 2**62], exhaustive=True)
def lazy_potts(case, ctx):
    import itertools
    from coniii.utils import xpotts_states
    n, k = case['n'], case['k']
    for i, s in enumerate(itertools.islice(xpotts_states(n, k), 300)):
        d = digits(i, k)
        need(list(s) == ['0'] * (n - len(d)) + d, 'state %d of n=%d, k=%d is %s', i, n, k, list(s))
    need(i == 299, 'only %d states', i + 1)
