"""C25: front end of the pairwise model."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, monomials, boltzmann, subsets, nparams, energy, raises, index

P = Prop('C25', 'generated fields, couplings, their formats and states; non-trivial: non-zero couplings')


def Ising(fast=True):
    """With fast, the energy functions are compiled once only."""
    from coniii.ising import utils
    if fast and hasattr(utils, 'define_ising_helper_functions'):
        utils.define_ising_helper_functions = models.ising_helpers
    return utils.Ising


@st.composite
def param(draw, k, scale):
    kind = draw(st.sampled_from(['none', 'scalar', 'list', 'array', 'array', 'ints', 'tuple']))
    if kind == 'none':
        return dict(kind=kind, v=[0.] * k)
    if kind == 'scalar':
        v = draw(gen.reals(scale))
        return dict(kind=kind, v=[v] * k)
    if kind == 'ints':
        return dict(kind=kind, v=draw(gen.vec(k, st.integers(-2, 2))))
    return dict(kind=kind, v=draw(gen.vec(k, gen.reals(scale))))


def fmt(p):
    k, v = p['kind'], p['v']
    return {'none': None, 'scalar': v[0], 'list': list(v), 'tuple': tuple(v), 'ints': np.array(v, int), 'array': np.array(v, float)}[k]


@st.composite
def model(draw, hi=6):
    n = draw(st.integers(2, hi))
    s = draw(st.sampled_from([.3, 1., 3.]))
    return dict(n=n, h=draw(param(n, s)), J=draw(param(n * (n - 1) // 2, s)))


def make(c, fast=True):
    h, J = fmt(c['h']), fmt(c['J'])
    kw = {}
    if h is not None:
        kw['h'] = h
    if J is not None:
        kw['J'] = J
    return Ising(fast)(c['n'], **kw)


def vector(c):
    return np.array(list(c['h']['v']) + list(c['J']['v']), float)


@st.composite
def both_case(draw):
    return draw(model(draw(st.sampled_from([3, 5, 7, 9]))))


@P.sub('both_bases', both_case, quick=400, thorough=3000)
def both_bases(c, ctx):
    n, th = c['n'], vector(c)
    args = [fmt(c['h']), fmt(c['J'])]
    m = make(c)
    close(m.fields(), th[:n], 'fields')
    close(m.couplings(), th[n:], 'couplings')
    close(m.fields('1'), th[:n], 'fields')
    p = boltzmann(th, n)
    S1, S0 = states(n, True), states(n, False)
    close(m.correlations(), p.dot(monomials(S1)), 'correlations')
    close(m.correlations('1'), p.dot(monomials(S1)), 'correlations')
    close(m.correlations('0'), p.dot(monomials(S0)), 'correlations over {0,1}')
    t0 = np.concatenate([m.fields('0'), m.couplings('0')])
    close(boltzmann(t0, n, sym=False), p, 'distribution of the parameters over {0,1}', rtol=1e-7)
    close(m.correlations(), p.dot(monomials(S1)), 'correlations asked for again')
    close(m.fields(), th[:n], 'fields asked for again')
    X = S1[:8].astype(np.int64)
    close(m.calc_e(X, th), energy(X, th), 'energy')
    ctx.tag('n=%d' % n)
    ctx.tag('fields ' + c['h']['kind'])
    ctx.tag('couplings ' + c['J']['kind'])
    ctx.trivial(not np.any(th[n:]))


@P.sub('own_energy_function', lambda: model(4), quick=8, thorough=40)
def own_energy_function(c, ctx):
    n, th = c['n'], vector(c)
    m = make(c, False)
    X = states(n, True).astype(np.int64)
    close(m.calc_e(X, th), energy(X, th), 'energy')
    close(m.correlations(), boltzmann(th, n).dot(monomials(X)), 'correlations')
    ctx.trivial(not np.any(th[n:]))


@st.composite
def state_case(draw):
    c = draw(model(draw(st.sampled_from([3, 5, 9]))))
    c['s'] = draw(gen.spins(c['n']))
    c['dtype'] = draw(st.sampled_from(['int64', 'int8', 'float64']))
    return c


@P.sub('flips', state_case, quick=1000, thorough=6000)
def flips(c, ctx):
    n, th = c['n'], vector(c)
    m = make(c)
    s = np.array(c['s']).astype(c['dtype'])
    keep = s.copy()
    E0 = energy(s[None], th)[0]
    N = np.repeat(s[None].astype(float), n, axis=0)
    N[range(n), range(n)] *= -1
    close(m.neighbor_dE(s), energy(N, th) - E0, 'energy differences of single flips', atol=1e-9)
    same(s, keep, 'the state (not to be changed)')
    ctx.trivial(not np.any(th[n:]))


@P.sub('basins', state_case, quick=1000, thorough=6000)
def basins(c, ctx):
    n, th = c['n'], vector(c)
    m = make(c)
    s = np.array(c['s']).astype(c['dtype'])
    keep = s.copy()
    # every end that steepest descent may reach; equal up to rounding counts as equal
    J = np.zeros((n, n))
    for q, (i, j) in enumerate(subsets(n, 2)):
        J[i, j] = J[j, i] = th[n + q]
    ends, seen, todo = set(), set(), [tuple(int(v) for v in c['s'])]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        a = np.array(t)
        dE = 2 * a * (th[:n] + J.dot(a))
        if dE.min() >= -1e-9:
            ends.add(t)
        if dE.min() < 1e-9:
            for i in np.flatnonzero(dE <= min(dE.min(), 0) + 1e-9):
                b = a.copy()
                b[i] *= -1
                todo.append(tuple(int(v) for v in b))
    count = [0]
    if hasattr(m, 'neighbor_dE'):
        f = m.neighbor_dE

        def limited(*a, **k):
            count[0] += 1
            need(count[0] < 20000, 'descent does not end')
            return f(*a, **k)
        m.neighbor_dE = limited
    r = np.asarray(m.find_basin(s))
    need(r.shape == (n,) and tuple(int(v) for v in r) in ends, 'descent from %s ends in %s; possible ends are %s', c['s'], r.tolist(), sorted(ends))
    same(s, keep, 'the state (not to be changed)')
    same(m.find_basin(r), r, 'descent from the end')
    ctx.tag('moves', not np.array_equal(r, keep))
    ctx.tag('one possible end', len(ends) == 1)
    ctx.trivial(not np.any(th[n:]) or np.array_equal(r, keep))


@P.sub('rejects', cases=[dict(n=n) for n in range(2, 7)])
def rejects(c, ctx):
    n = c['n']
    k = n * (n - 1) // 2
    raises(lambda: Ising()(n, h=np.zeros(n + 1)), 'too many fields')
    raises(lambda: Ising()(n, h=np.zeros(n - 1)), 'too few fields')
    raises(lambda: Ising()(n, J=np.zeros(k + 1)), 'too many couplings')
    raises(lambda: Ising()(n, h=np.zeros((n, 1))), 'two-dimensional fields')
    raises(lambda: Ising()(1), 'one spin')
    raises(lambda: Ising()(n).find_basin(np.ones(n + 1, int)), 'state of the wrong size')
