"""C16: the sparse exact solver."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, mean_obs, nparams, monomials
from checks.c15_enumerate import HYBR, minimizable, again_case, again_keywords

P = Prop('C16', 'subsets of parameters (all of them for small systems), generated parameters, data and options; non-trivial: a proper '
         'subset with at least one nonzero parameter')


def solver(n, ix, sample=None, **kw):
    from coniii.solvers import SparseEnumerate
    return SparseEnumerate(n if sample is None else sample, model=models.ising(n), calc_observables=models.ising_helpers()[1],
                           parameter_ix=np.array(ix, dtype=np.int64), iprint=False, **kw)


def full(x, ix, size, fill=0.):
    v = np.full(size, fill)
    v[np.asarray(ix)] = x
    return v


def all_subsets(tier):
    top = 5 if tier == 'thorough' else 4
    return [dict(n=n, k=k) for n in range(2, top + 1) for k in range(1, nparams(n) + 1)]


@P.sub('fill_in', cases=all_subsets, exhaustive=True)
def fill_in(c, ctx):
    """Every subset of every size."""
    n, k = c['n'], c['k']
    size = nparams(n)
    s = solver(n, [0])
    for ix in itertools.combinations(range(size), k):
        s.parameterIx = np.array(ix)
        s.set_insertion_ix()
        x = np.arange(1., k + 1)
        same(s.fill_in(x), full(x, ix, size), 'fill_in for indices %s' % (ix,))
        same(s.fill_in(x, -7.), full(x, ix, size, -7.), 'fill_in with a value, for indices %s' % (ix,))


@P.sub('fill_in_large', lambda: st.integers(2, 12).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), ix=st.lists(st.integers(0, nparams(n) - 1), min_size=1, max_size=25), fill=st.sampled_from([0, 1.5, -2])))),
    quick=40, thorough=1500)
def fill_in_large(c, ctx):
    n, ix = c['n'], sorted(set(c['ix']))
    s = solver(n, c['ix'])
    same(s.parameterIx, ix, 'parameter indices')
    x = np.arange(1., len(ix) + 1)
    same(s.fill_in(x, c['fill']), full(x, ix, nparams(n), c['fill']), 'fill_in')
    ctx.tag('repeated or unsorted', list(c['ix']) != ix)
    ctx.trivial(len(ix) == nparams(n))


@st.composite
def case(draw):
    n = draw(st.integers(2, 6))
    size = nparams(n)
    ix = draw(st.one_of(st.lists(st.integers(0, size - 1), min_size=1, max_size=size),
                        st.sampled_from([list(range(n)), list(range(n, size)), [0], [size - 1], list(range(size))])))
    k = len(set(ix))
    method = draw(st.sampled_from(['default', 'hybr', 'hybr']))
    scale = .2 if method == 'default' else draw(st.sampled_from([.2, .6]))
    return dict(n=n, ix=ix, x=draw(gen.vec(k, gen.smooth(scale))), method=method, start=draw(st.sampled_from(['none', 'near', 'other'])),
                d=draw(gen.vec(k, gen.smooth(.2))), member=draw(st.booleans()), full=draw(st.booleans()),
                maxp=draw(st.sampled_from(['default', None, 6.])))


@P.sub('recover', case, quick=120, thorough=3000)
def recover(c, ctx):
    n, ix, x = c['n'], sorted(set(c['ix'])), np.array(c['x'], float)
    size = nparams(n)
    C = mean_obs(full(x, ix, size), n)[ix]
    s = solver(n, c['ix'])
    kw = dict(initial_guess=dict(none=None, near=x + np.array(c['d']) / 3, other=np.array(c['d']))[c['start']])
    if c['method'] == 'hybr':
        kw['scipy_solver_kwargs'] = HYBR
    if c['maxp'] != 'default':
        kw['max_param_value'] = c['maxp']
    if c['member']:
        s.constraints = C.copy()
    else:
        kw['constraints'] = C.copy()
    if c['full']:
        r, out = s.solve(full_output=True, **kw)
        same(out['x'], r, 'solution and the x of the optimiser output')
    else:
        r = s.solve(**kw)
    same(r, s.multipliers, 'returned and stored parameters')
    need(np.shape(r) == (len(ix),), 'solution has shape %s for %d parameters', np.shape(r), len(ix))
    th = s.fill_in(r)
    same(np.flatnonzero(np.delete(th, ix)), np.zeros(0, int), 'nonzero parameters that were not to be fitted')
    close(mean_obs(th, n)[ix], C, 'chosen correlations', rtol=0, atol=1e-8)
    close(r, x, 'parameters', rtol=0, atol=1e-4)
    ctx.tag('subset of size %s' % ('1' if len(ix) == 1 else 'all' if len(ix) == size else 'between'))
    ctx.trivial(len(ix) == size or not x.any())


@st.composite
def data_case(draw):
    n = draw(st.integers(2, 5))
    size = nparams(n)
    return dict(n=n, ix=draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=size)),
                w=draw(st.lists(st.integers(1, 9), min_size=2 ** n, max_size=2 ** n)), explicit=draw(st.booleans()),
                full_vector=draw(st.booleans()), seed=draw(gen.seeds))


@P.sub('from_data', data_case, quick=80, thorough=2000)
def from_data(c, ctx):
    n, ix = c['n'], sorted(set(c['ix']))
    X = np.repeat(states(n, True), c['w'], axis=0)
    X = X[np.random.RandomState(c['seed']).permutation(len(X))]
    s = solver(n, c['ix'], X)
    C = monomials(X).mean(0)[ix]
    close(s.constraints, C, 'constraints from data', rtol=0, atol=1e-12)
    if c['explicit']:
        C = monomials(np.repeat(states(n, True), np.array(c['w'])[::-1] + 2, axis=0)).mean(0)[ix]
        r = s.solve(constraints=C, scipy_solver_kwargs=HYBR)
        ctx.tag('explicit constraints override')
    else:
        r = s.solve(scipy_solver_kwargs=HYBR)
    close(mean_obs(full(r, ix, nparams(n)), n)[ix], C, 'chosen correlations', rtol=0, atol=1e-8)
    ctx.trivial(len(ix) == nparams(n))


@P.sub('minimize', lambda: st.integers(2, 4).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), ix=st.lists(st.integers(0, nparams(n) - 1), min_size=1, max_size=3), x=gen.vec(3, gen.smooth(.7)),
    maxp=st.sampled_from(['default', None])))), quick=30, thorough=600)
def minimize(c, ctx):
    n, ix = c['n'], sorted(set(c['ix']))
    x = np.array(c['x'][:len(ix)])
    C = mean_obs(full(x, ix, nparams(n)), n)[ix]
    s = solver(n, c['ix'])
    kw = {} if c['maxp'] == 'default' else dict(max_param_value=None)
    opt = dict(maxiter=5000, maxfev=9000, xatol=1e-9, fatol=1e-11)
    if not minimizable(None, C, n, 'Nelder-Mead', opt, lambda y: mean_obs(full(y, ix, nparams(n)), n)[ix]):
        return ctx.tag('the method stalls')
    r = s.solve(constraints=C, use_root=False, scipy_solver_kwargs=dict(method='Nelder-Mead', options=opt), **kw)
    close(mean_obs(full(r, ix, nparams(n)), n)[ix], C, 'chosen correlations', rtol=0, atol=1e-3)
    ctx.trivial(not x.any())


@st.composite
def bound_case(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(1, 3))
    return dict(n=n, ix=draw(st.lists(st.integers(0, nparams(n) - 1), min_size=k, max_size=k, unique=True)), x=draw(gen.vec(k, gen.smooth(1.2))),
                maxp=draw(st.sampled_from([.3, .6, 1., 3.])))


@P.sub('bounds', bound_case, quick=40, thorough=800)
def bounds(c, ctx):
    """The minimizer does not go beyond the largest value allowed, on either side."""
    n, ix = c['n'], sorted(c['ix'])
    x = np.array(c['x'])
    s = solver(n, ix)
    r = s.solve(constraints=mean_obs(full(x, ix, nparams(n)), n)[ix], max_param_value=c['maxp'], use_root=False,
                scipy_solver_kwargs=dict(method='Nelder-Mead', options=dict(maxiter=400)))
    need(np.abs(r).max() <= c['maxp'], 'parameter %g beyond the largest value %g', np.abs(r).max(), c['maxp'])
    ctx.tag('positive beyond the bound', x.max() > c['maxp'])
    ctx.tag('negative beyond the bound', x.min() < -c['maxp'])
    ctx.trivial(np.abs(x).max() <= c['maxp'])


@P.sub('rejects', cases=[dict(what='none'), dict(what='float')])
def rejects(c, ctx):
    from vh.oracle import raises
    from coniii.solvers import SparseEnumerate
    kw = {} if c['what'] == 'none' else dict(parameter_ix=np.array([0., 1.]))
    raises(lambda: SparseEnumerate(3, model=models.ising(3), calc_observables=models.ising_helpers()[1], iprint=False, **kw),
           'SparseEnumerate with parameter_ix %s' % c['what'], (AssertionError, TypeError, ValueError))
    s = solver(3, [0, 1, 2])
    raises(lambda: s.solve(constraints=np.zeros(3), initial_guess=np.zeros(2)), 'starting point of the wrong size', (AssertionError, ValueError))
    raises(lambda: s.solve(), 'no constraints', (AssertionError, TypeError, ValueError))


@P.sub('fill_in_many_spins', gen.large(13, 60, k=st.integers(1, 200), fill=st.sampled_from([0, 1.5, -2])), quick=20, thorough=400)
def fill_in_many(c, ctx):
    n = c['n']
    r = np.random.RandomState(c['seed'])
    size = nparams(n)
    ix = r.choice([0, n - 1, n, size - 1] + list(range(size)), size=c['k'])
    if c['sparse']:
        ix = np.arange(size)[r.rand(size) < .9]
    ix = sorted(set(ix.tolist())) or [0]
    s = solver(n, ix)
    x = r.randn(len(ix))
    same(s.parameterIx, ix, 'parameter indices')
    same(s.fill_in(x, c['fill']), full(x, ix, size, float(c['fill'])), 'fill_in')
    ctx.tag('more than 127 parameters', len(ix) > 127)


@P.sub('solved_again', lambda: again_case().flatmap(lambda c: st.fixed_dictionaries(dict(c=st.just(c), ix=st.lists(
       st.integers(0, nparams(c['n']) - 1), min_size=1, max_size=nparams(c['n']), unique=True)))), quick=40, thorough=800)
def solved_again(c, ctx):
    from vh import again
    c, ix = c['c'], sorted(c['ix'])
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)
    ops = sorted(c['ops'], key=lambda o: o['th'] is not None)

    def go(s, o):
        g = None if o['guess'] is None else np.array(o['guess'])[ix].tolist()
        C = None if o['th'] is None else mean_obs(full(np.array(o['th'])[ix], ix, nparams(n)), n)[ix]
        r = s.solve(**again_keywords(dict(o, guess=g), C))
        r = r[0] if o['full'] else r
        return np.asarray(r), np.asarray(s.multipliers), s.fill_in(np.asarray(r))
    again.check(lambda: solver(n, ix, X.copy()), ops, go, 'sparse enumerate')
    ctx.trivial(len(ix) == nparams(n))


@P.sub('recover_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(7, 9), scale=st.sampled_from([.05, .15]), seed=gen.seeds,
       frac=st.sampled_from([.1, .5, .9]), maxp=st.sampled_from(['default', None, 5.]))), quick=5, thorough=60)
def recover_larger(c, ctx):
    n = c['n']
    r = np.random.RandomState(c['seed'])
    size = nparams(n)
    ix = np.flatnonzero(r.rand(size) < c['frac'])
    ix = ix if len(ix) else np.array([size - 1])
    x = r.uniform(-1, 1, len(ix)) * c['scale']
    C = mean_obs(full(x, ix, size), n)[ix]
    kw = {} if c['maxp'] == 'default' else dict(max_param_value=c['maxp'])
    s = solver(n, ix)
    got = s.solve(constraints=C.copy(), scipy_solver_kwargs=HYBR, **kw)
    same(got, s.multipliers, 'returned and stored parameters')
    need(np.shape(got) == (len(ix),), 'solution has shape %s for %d parameters', np.shape(got), len(ix))
    close(mean_obs(full(got, ix, size), n)[ix], C, 'chosen correlations', rtol=0, atol=1e-7)
    close(s.fill_in(got), full(got, ix, size), 'filled in', rtol=0, atol=0)
    ctx.tag('n=%d' % n)
    ctx.trivial(False)
