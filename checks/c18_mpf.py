"""C18: minimum probability flow."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, subsets
from checks.c17_pseudo import newton, whole, expand

P = Prop('C18', 'generated data sets, parameters, neighbourhoods and options, and whole distributions of generated models; non-trivial: '
         'data with at least two different states')


def solver(X, **kw):
    from coniii.solvers import MPF
    return MPF(X, model=models.ising(X.shape[1]), calc_observables=models.ising_helpers()[1], iprint=False, **kw)


def neighbours(s, data, all_connected, dist=1):
    out = []
    for d in range(1, dist + 1):
        for ix in itertools.combinations(range(len(s)), d):
            t = list(s)
            for i in ix:
                t[i] = 1 - t[i]
            if all_connected or tuple(t) not in data:
                out.append(tuple(t))
    return out


def flow(X, th, all_connected=True, dist=1, counts=None):
    """Average flow out of the data states (in {0,1}) with gradient and Hessian, and its logarithm."""
    u, cnt = np.unique(X, axis=0, return_counts=True)
    if counts is not None:
        cnt = np.asarray(counts)
    data = set(map(tuple, u.tolist()))
    D, w = [], []
    for s, k in zip(u.tolist(), cnt):
        nb = neighbours(s, data, all_connected, dist)
        if nb:
            D.append(.5 * (monomials(np.array(nb)) - monomials(np.array([s]))))
            w += [k / cnt.sum()] * len(nb)
    D, w = np.vstack(D), np.array(w)
    z = D.dot(th)
    m = z.max()
    e = w * np.exp(z - m)
    return e.sum(), m, D.T.dot(e), D.T.dot(D * e[:, None]) if D.shape[1] < 300 else None


def separated(X):
    """Every data state has a neighbour that is not in the data."""
    data = set(map(tuple, X.tolist()))
    return all(neighbours(s, data, False) for s in data)


@st.composite
def obj_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, X=draw(gen.sample(n, 1, 12, (0, 1))), th=draw(gen.theta(n, elem=gen.smooth(2.))), allc=draw(st.booleans()),
                grad=draw(st.booleans()), scale=draw(st.sampled_from([1., 1., 1., 300.])), far=draw(st.booleans()),
                counts=draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 2, 50, 9999, 10 ** 6, 10 ** 8]), min_size=12, max_size=12))))


def adj2(s):
    """States one or two flips away."""
    return np.array(neighbours([int(v) for v in s], set(), True, 2))


@P.sub('objective', obj_case, quick=300, thorough=8000)
def objective(c, ctx):
    from coniii import utils
    n, X, th = c['n'], np.array(c['X']), np.array(c['th']) * c['scale']
    dist = 2 if c['far'] else 1
    data = set(map(tuple, c['X']))
    allc = c['allc']
    if not allc and not all(neighbours(s, data, False, dist) for s in data):
        ctx.tag('no neighbour outside the data')
        s = solver(2 * X - 1, **(dict(adj=adj2) if c['far'] else {}))
        from vh.oracle import raises
        return raises(lambda: s.list_adjacent_states(np.unique(X, axis=0), False), 'data state without a neighbour outside the data')
    kw = dict(adj=adj2) if c['far'] else {}
    if c['grad']:
        kw['calc_de'] = utils.calc_de
    s = solver(2 * X - 1, **kw)
    u, cnt = np.unique(X, axis=0, return_counts=True)
    A = s.list_adjacent_states(u, allc)
    need(len(A) == len(u), '%d lists of neighbours for %d states', len(A), len(u))
    for a, t in zip(A, u.tolist()):
        same(np.array(sorted(map(tuple, np.asarray(a).tolist()))), np.array(sorted(neighbours(t, data, allc, dist))),
             'neighbours of %s' % t)
    if c.get('counts') is not None:       # the data of the call need not be those of the solver
        cnt = np.array(c['counts'])[:len(u)]
        ctx.tag('more than 10000 times', cnt.max() > 10000)
    f, m, g, _ = flow(X, th, allc, dist, cnt)
    r = s.logK(u, cnt, A, th)
    if c['grad']:
        r, rg = r
        close(rg, g / f, 'gradient of the logarithm of the flow', rtol=1e-9, atol=1e-9)
    close(r, np.log(f) + m, 'logarithm of the flow', rtol=1e-10, atol=1e-10)
    ctx.tag('beyond the exponent range', abs(m) > 710)
    if abs(m) < 650:
        r = s.K(u, cnt, A, th)
        if c['grad']:
            r, rg = r
            close(rg / f / np.exp(m), g / f, 'gradient of the flow', rtol=1e-9, atol=1e-9)
        close(r / np.exp(m), f, 'flow', rtol=1e-9, atol=1e-11)
    ctx.tag('all neighbours' if allc else 'neighbours outside the data')
    ctx.tag('uneven neighbourhoods', len(set(map(len, A))) > 1)
    ctx.trivial(len(u) < 2)


def to11(th, n):
    """Parameters over {0,1} as parameters over {-1,1}, x=(s+1)/2."""
    h, J = th[:n] / 2., th[n:] / 4.
    h = h.copy()
    for k, (i, j) in enumerate(subsets(n, 2)):
        h[i] += J[k]
        h[j] += J[k]
    return np.concatenate([h, J])


def to01(th, n):
    h, J = 2. * th[:n], 4. * th[n:]
    h = h.copy()
    for k, (i, j) in enumerate(subsets(n, 2)):
        h[i] -= J[k] / 2
        h[j] -= J[k] / 2
    return np.concatenate([h, J])


@st.composite
def sol_case(draw):
    n = draw(st.integers(2, 4))
    lo = 1
    w = draw(st.lists(st.integers(lo, 9), min_size=2 ** n, max_size=2 ** n))
    return dict(n=n, w=w, seed=draw(gen.seeds), grad=draw(st.booleans()), log=draw(st.booleans()), full=draw(st.booleans()),
                guess=draw(st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.5)))),
                limit=draw(st.sampled_from([100, 100, 100, .7])))


def tolerance(H, f, grad):
    lam = max(1e-12, np.linalg.eigvalsh(H / f)[0])
    return (2e-3 if grad else 6e-3) / lam * .5 + 1e-4


@P.sub('solution', sol_case, quick=80, thorough=2000)
def solution(c, ctx):
    from coniii import utils
    n = c['n']
    X = expand(c, states(n, False))
    s = solver(2 * X - 1, **(dict(calc_de=utils.calc_de) if c['grad'] else {}))

    def obj(x):
        f, m, g, H = flow(X, x)
        return -f * np.exp(m), -g * np.exp(m), -H * np.exp(m)
    x, H = newton(obj, np.zeros(nparams(n)))
    guess = None if c['guess'] is None else np.array(c['guess'])
    kw = dict(initial_guess=guess, full_output=c['full'], uselog=c['log'])
    if c['limit'] != 100:
        kw['parameter_limits'] = c['limit']
        if guess is not None:
            kw['initial_guess'] = guess = guess * .3
    keep = None if guess is None else guess.copy()
    r = s.solve(**kw)
    if c['full']:
        r, out = r
        close(to11(np.asarray(out['x']), n), r, 'solution and the x of the optimiser output', rtol=0, atol=1e-10)
    if keep is not None:
        same(guess, keep, 'the starting point (not to be changed)')
    close(r, s.multipliers, 'returned and stored parameters', rtol=0, atol=1e-12)
    got = to01(np.asarray(r, float), n)
    need(np.abs(got).max() <= c['limit'] + 1e-8, 'parameter %g beyond the limit %g', np.abs(got).max(), c['limit'])
    f, m, g, H = flow(X, got)
    if np.abs(x).max() > c['limit']:
        # constrained minimum: the gradient points out of the box
        ctx.tag('at the limit')
        pg = np.where((got >= c['limit'] - 1e-6) & (g < 0) | (got <= -c['limit'] + 1e-6) & (g > 0), 0, g)
        need(np.abs(pg / f).max() < 5e-3, 'relative gradient of the flow within the limits is %g', np.abs(pg / f).max())
    else:
        need(np.abs(g / f).max() < 5e-3, 'relative gradient of the flow at the solution is %g', np.abs(g / f).max())
        close(got, x, 'minimum of the flow', rtol=0, atol=tolerance(H, f, c['grad']))
    ctx.trivial(len(set(c['w'])) == 1)


@st.composite
def large_case(draw):
    c = draw(sol_case())
    n = c['n'] = draw(st.integers(2, 3))
    c['guess'], c['limit'] = None, 100
    c['w'] = draw(st.lists(st.sampled_from([1, 40, 500, 5000, 30000]), min_size=2 ** n, max_size=2 ** n))
    return c


@P.sub('large_data', large_case, quick=8, thorough=100)
def large_data(c, ctx):
    """States that occur once, and states that occur tens of thousands of times."""
    solution(c, ctx)
    ctx.tag('a state occurs more than 10000 times', max(c['w']) > 10000)


@st.composite
def part_case(draw):
    n = draw(st.integers(3, 5))
    return dict(n=n, X=draw(gen.sample(n, 2, 14, (0, 1))), grad=draw(st.booleans()), log=draw(st.booleans()))


@P.sub('outside_data', part_case, quick=80, thorough=2000)
def outside_data(c, ctx):
    """Flow to states outside the data only: the solution is no worse than the start, and stationary unless it runs to the limits."""
    from coniii import utils
    n, X = c['n'], np.array(c['X'])
    if not separated(X):
        return ctx.trivial()
    s = solver(2 * X - 1, **(dict(calc_de=utils.calc_de) if c['grad'] else {}))
    r, out = s.solve(all_connected=False, full_output=True, uselog=c['log'], parameter_limits=4)
    got = to01(np.asarray(r, float), n)
    f, m, g, H = flow(X, got, False)
    v = np.log(f) + m if c['log'] else f * np.exp(m)
    close(out['fun'], v, 'objective at the solution', rtol=1e-6, atol=1e-8)
    need(np.abs(got).max() <= 4 + 1e-8, 'parameter %g beyond the limit', np.abs(got).max())
    pg = np.where((got >= 4 - 1e-6) & (g < 0) | (got <= -4 + 1e-6) & (g > 0), 0, g)
    if out['success'] or out['status'] == 2:
        size = f if c['log'] else np.exp(-m)
        need(np.abs(pg / size).max() < 2e-2, 'gradient of the flow within the limits is %g', np.abs(pg / size).max())
        ctx.tag('converged')
    ctx.trivial(len(set(map(tuple, c['X']))) < 2)


@st.composite
def whole_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, a=draw(gen.vec(n, st.integers(1, 3))), b=draw(gen.vec(n * (n - 1) // 2, st.integers(1, 2))),
                grad=draw(st.booleans()), log=draw(st.booleans()))


@P.sub('whole_distribution', whole_case, quick=60, thorough=1500)
def whole_distribution(c, ctx):
    from coniii import utils
    X, th = whole(c)
    s = solver(X, **(dict(calc_de=utils.calc_de) if c['grad'] else {}))
    r = s.solve(uselog=c['log'])
    f, m, g, H = flow((X + 1) // 2, to01(th, c['n']))
    close(r, th, 'parameters of the model whose distribution is the data', rtol=0, atol=tolerance(H, f, c['grad']))
    ctx.trivial(not th.any())


@P.sub('default_setup', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 6), seed=gen.seeds, m=st.integers(30, 120))), quick=4, thorough=40)
def default_setup(c, ctx):
    from coniii.solvers import MPF
    n = c['n']
    X = np.random.RandomState(c['seed']).choice([0, 1], size=(c['m'] * 4, n))
    s = MPF(2 * X - 1, iprint=False)
    got = to01(np.asarray(s.solve(parameter_limits=20), float), n)
    f, m, g, H = flow(X, got)
    need(np.abs(g / f).max() < 5e-3, 'relative gradient of the flow at the solution is %g', np.abs(g / f).max())
    ctx.tag('n=%d' % n)


@P.sub('objective_many_spins', gen.large(6, 70, rows=30, scales=(.1, 1., 100.), vals=((0, 1),), rep=st.sampled_from([1, 1, 100]), allc=st.booleans(), grad=st.booleans()),
       quick=20, thorough=400)
def objective_many(c, ctx):
    th, X = gen.bulk(c, nparams(c['n']))
    r = np.random.RandomState(c['seed'] % 1000)
    for i in range(1, len(X), 2):        # pairs of states one flip apart
        X[i] = X[i - 1]
        X[i, r.choice([0, c['n'] - 1, c['n'] // 2])] ^= 1
    c = dict(c, grad=c['grad'] and c['n'] < 20)
    ctx.tag('n>32', c['n'] > 32)
    objective(dict(n=c['n'], X=X.tolist() * c['rep'], th=th, scale=1., allc=c['allc'], grad=c['grad'], far=False), ctx)


@P.sub('larger_solution', lambda: st.fixed_dictionaries(dict(n=st.integers(6, 9), rows=st.integers(300, 700), seed=gen.seeds, grad=st.sampled_from([True, True, True, False]),
       log=st.booleans())), quick=6, thorough=80)
def larger_solution(c, ctx):
    """Data as they are met in practice."""
    from coniii import utils
    r = np.random.RandomState(c['seed'])
    n = c['n']
    X = (r.rand(c['rows'], n) < r.uniform(.35, .65, n)).astype(int)
    follow = r.rand(c['rows']) < .4
    X[follow, n - 1] = X[follow, 0]
    s = solver(2 * X - 1, **(dict(calc_de=utils.calc_de) if c['grad'] else {}))
    got = to01(np.asarray(s.solve(uselog=c['log']), float), n)

    def obj(x):
        f, m, g, H = flow(X, x)
        return -f * np.exp(m), -g * np.exp(m), -H * np.exp(m)
    x, H = newton(obj, np.zeros(nparams(n)))
    f, m, g, H = flow(X, got)
    need(np.abs(g / f).max() < 5e-3, 'relative gradient of the flow at the solution is %g', np.abs(g / f).max())
    close(got, x, 'minimum of the flow', rtol=0, atol=tolerance(H, f, c['grad']))
    ctx.tag('with gradient' if c['grad'] else 'without gradient')
    ctx.trivial(False)


@st.composite
def again_case(draw):
    n = draw(st.integers(3, 4))
    X = draw(gen.sample(n, 2, 8, (0, 1)))
    op = st.fixed_dictionaries(dict(allc=st.booleans(), log=st.booleans(), full=st.booleans(), part=st.booleans(), limit=st.sampled_from([2, 4]),
                                    guess=st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.3))), th=gen.theta(n, elem=gen.smooth(1.))))
    return dict(n=n, X=X, ops=draw(st.lists(op, min_size=2, max_size=4)), grad=draw(st.booleans()))


@P.sub('solved_again', again_case, quick=30, thorough=600)
def solved_again(c, ctx):
    """Neighbours, flow and solutions of a solver that was used before."""
    from coniii import utils
    from vh import again
    n, X = c['n'], np.array(c['X'])
    u, cnt = np.unique(X, axis=0, return_counts=True)
    ops = [dict(o, allc=o['allc'] or not separated(u)) for o in c['ops']]

    def go(s, o):
        v = u[:1 + len(u) // 2] if o['part'] else u        # other data than those of the solver
        A = s.list_adjacent_states(v, o['allc'])
        return tuple(np.array(sorted(map(tuple, np.asarray(a).tolist()))) for a in A) + tuple(
            np.ravel(q) for q in np.atleast_1d(s.logK(v, cnt[:len(v)], A, np.array(o['th']))[0] if c['grad'] else s.logK(v, cnt[:len(v)], A, np.array(o['th']))))

    def solve(s, o):
        r = s.solve(initial_guess=None if o['guess'] is None else np.array(o['guess']), all_connected=o['allc'], full_output=o['full'], uselog=o['log'],
                    parameter_limits=o['limit'])
        r = to01(np.asarray(r[0] if o['full'] else r, float), n)
        f, m, g, H = flow(X, r, o['allc'])
        return np.array([f * np.exp(m)])
    kw = dict(calc_de=utils.calc_de) if c['grad'] else {}
    again.check(lambda: solver(2 * X - 1, **kw), ops, go, 'flow', atol=1e-9)
    again.check(lambda: solver(2 * X - 1, **kw), ops, solve, 'smallest flow', atol=1e-3)
    ctx.trivial(len(u) < 2)
