"""C29: log-sum-exp helpers."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, same

P = Prop('C29', 'generated terms (ties, spreads beyond the exponent range, offsets up to 1e300) and coefficients (zero, '
         'mixed signs, cancelling); non-trivial: at least two terms and a coefficient that is not one')


@st.composite
def lse_case(draw):
    n = draw(st.integers(1, 12))
    scale = draw(st.sampled_from([1e-3, 1., 30., 800., 1e6]))
    x = draw(gen.vec(n, gen.reals(scale)))
    off = draw(st.sampled_from([0., 0., 1e3, -1e3, 1e8, -1e8]))
    x = [v + off for v in x]
    if draw(st.booleans()):
        x = [x[draw(st.integers(0, n - 1))] for _ in range(n)]
    kind = draw(st.sampled_from(['none', 'signs', '01', 'real', 'tiny', 'zero']))
    el = dict(none=st.just(1), signs=st.sampled_from([-1, 1]), real=gen.reals(5.))
    el['01'] = st.sampled_from([0, 1])
    el['tiny'] = gen.reals(5.).map(lambda v: v * 1e-303)
    el['zero'] = st.sampled_from([0, 0., -0.])
    c = draw(gen.vec(n, el[kind]))
    return dict(x=x, c=None if kind == 'none' else c, aslist=draw(st.booleans()))


def check(f, x, case, ctx, eps, what, dps):
    import mpmath as mp
    c = case['c']
    cc = [1] * len(x) if c is None else c
    args = (x,) if c is None else (x, (list(c) if case['aslist'] else np.array(c)))
    r = f(*args)
    need(len(r) == 2, '%s returned %r', what, r)
    with mp.workdps(dps):
        xs = [mp.mpf(v) for v in x]
        mx = max(xs)
        t = [mp.mpf(a) * mp.exp(v - mx) for a, v in zip(cc, xs)]
        y = mp.fsum(t)
        mag = mp.fsum([abs(v) for v in t])
        # the difference x-max is itself rounded
        tol = eps * (len(x) + 2) * 4 * mag
        tol += eps * mp.fsum([abs(v) * abs(w - mx) for v, w in zip(t, xs)])
        if r[0] == -mp.inf or (not mp.isfinite(mp.mpf(r[0]))):
            need(mp.mpf(r[0]) == -mp.inf, '%s is %r', what, r[0])
            got = mp.mpf(0)
        else:
            # rounding of log(y) and of log(y)+max is relative to these
            got = mp.exp(mp.mpf(r[0]) - mx) * mp.mpf(r[1])
            tol += abs(got) * eps * 4 * (1 + abs(mx) + abs(mp.mpf(r[0]) - mx))
        need(r[1] in (-1, 1), '%s: sign %r', what, r[1])
        need(abs(got - y) <= tol + mp.mpf(10)**-321 * (1 + max(map(abs, cc))), '%s: %s instead of %s (relative to the largest term; '
             'tolerance %s)', what, mp.nstr(got, 20), mp.nstr(y, 20), mp.nstr(tol, 5))
        if mag == 0 or (len(x) == 2 and x[0] == x[1] and cc[0] == -cc[1]):
            need(mp.mpf(r[0]) == -mp.inf, '%s of nothing is %s, not -inf', what, r[0])
            ctx.tag('sum of zeros')
        ctx.tag('negative sum', y < 0)
        ctx.tag('cancels to zero', y == 0 and mag > 0)
        ctx.tag('no overlap of magnitudes', max(xs) - min(xs) > 700)
    ctx.trivial(len(x) < 2 or c is None or all(a == 1 for a in c))


@P.sub('fast_logsumexp', lse_case, quick=3000, thorough=80000)
def fast(case, ctx):
    from coniii.enumerate import fast_logsumexp
    x = np.array(case['x'])
    check(fast_logsumexp, x, case, ctx, 2.**-52, 'fast_logsumexp', 60)
    same(x, case['x'], 'the given terms')


@P.sub('mp_fast_logsumexp', lse_case, quick=800, thorough=10000)
def high(case, ctx):
    import mpmath as mp
    from coniii.enumerate import mp_fast_logsumexp
    for dps in (15, 50):
        with mp.workdps(dps):
            x = np.array([mp.mpf(v) / 3 for v in case['x']], dtype=object)
            c = case['c'] if dps == 15 or case['c'] is None else [mp.mpf(a) / 7 for a in case['c']]
        def f(*a):
            with mp.workdps(dps):
                return mp_fast_logsumexp(*a)
        check(f, x, dict(case, c=c), ctx, mp.mpf(10)**(1 - dps), 'mp_fast_logsumexp at %d digits' % dps, 90)


@P.sub('agree', lse_case, quick=800, thorough=10000)
def agree(case, ctx):
    """A list of numpy floats, as in the Potts files, works like an array; a common shift of all
    terms shifts the result."""
    from coniii.enumerate import fast_logsumexp
    x = np.array(case['x'])
    c = case['c']
    a = fast_logsumexp(x, c) if c is not None else fast_logsumexp(x)
    b = fast_logsumexp(list(x), c) if c is not None else fast_logsumexp(list(x))
    need(a == b or (np.isnan(a[0]) and np.isnan(b[0])), 'list: %r, array: %r', b, a)
    ctx.trivial(len(x) < 2)


@st.composite
def many_case(draw):
    return dict(s=draw(st.integers(0, 2**32 - 1)), n=draw(st.integers(60, 2200)), big=draw(st.booleans()),
                scale=draw(st.sampled_from([.1, 3., 40., 900.])), off=draw(st.sampled_from([0., 0., 500., -2e3])),
                c=draw(st.sampled_from(['none', 'signs', '01', '01', 'real', 'rare'])))


@P.sub('many_terms', many_case, quick=150, thorough=3000)
def many(case, ctx):
    """As many terms as the partition function of ten spins."""
    from coniii.enumerate import fast_logsumexp, mp_fast_logsumexp
    rng = np.random.default_rng(case['s'])
    n = case['n']
    x = rng.normal(size=n) * case['scale'] + case['off']
    c = dict(none=None, signs=rng.choice([-1, 1], size=n), real=rng.normal(size=n) * 3,
             rare=(rng.random(n) < .01) * 1)
    c['01'] = rng.integers(0, 2, size=n)
    c = c[case['c']]
    k = dict(x=x.tolist(), c=None if c is None else c.tolist(), aslist=False)
    if case['big']:
        import mpmath as mp
        with mp.workdps(30):
            X = np.array([mp.mpf(v) for v in k['x'][:300]], dtype=object)
            k.update(x=k['x'][:300], c=None if c is None else k['c'][:300], aslist=True)
        def f(*a):
            with mp.workdps(30):
                return mp_fast_logsumexp(*a)
        check(f, X, k, ctx, mp.mpf(10)**-29, 'mp_fast_logsumexp', 60)
    else:
        check(fast_logsumexp, x, k, ctx, 2.**-52, 'fast_logsumexp', 60)
