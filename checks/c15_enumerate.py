"""C15: the enumerating solver recovers the parameters behind exact correlations."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, mean_obs, nparams, monomials

P = Prop('C15', 'generated parameters (or data with every state), starting points, options; non-trivial: parameters not all zero and '
         'the starting point is not the solution')


def solver(n, sample=None, **kw):
    from coniii.solvers import Enumerate
    return Enumerate(n if sample is None else sample, model=models.ising(n), calc_observables=models.ising_helpers()[1],
                     iprint=False, **kw)


def jac(th, n, sym=True, order=2):
    from vh.oracle import boltzmann
    M = monomials(states(n, sym), order)
    p = boltzmann(th, n, sym, order)
    m = p.dot(M)
    return (M - m).T.dot((M - m) * p[:, None])


def judge(x, C, n, what, tol, sym=True, order=2):
    """The parameters x reproduce the correlations C."""
    x = np.asarray(x, float)
    need(x.shape == C.shape, '%s: solution has shape %s', what, x.shape)
    close(mean_obs(x, n, sym, order), C, '%s: correlations of the solution' % what, rtol=0, atol=tol)


HYBR = dict(method='hybr', options=dict(xtol=1e-12))


def converged(s, ctx, **kw):
    """The solution; None if the optimiser of scipy gave up, and said so."""
    try:
        r, out = s.solve(full_output=True, **kw)
    except ValueError as e:
        if 'Jacobian' not in str(e):
            raise
        return ctx.tag('no convergence')
    if not out['success']:
        return ctx.tag('no convergence')
    return r


def judge_theta(x, th, n, what, tol, sym=True, order=2):
    lam = np.linalg.eigvalsh(jac(th, n, sym, order))[0]
    if lam > 1e-3:
        close(x, th, '%s: parameters' % what, rtol=0, atol=max(1e-7, 3 * tol * len(th) / lam))


@st.composite
def case(draw):
    n = draw(st.integers(2, 6))
    method = draw(st.sampled_from(['default', 'hybr', 'hybr']))
    hs = draw(st.sampled_from([.2, .2, .2, .5] if method == 'default' else [.2, .6, 1., 1.5]))
    th = draw(gen.theta(n, elem=gen.smooth(hs)))
    start = draw(st.sampled_from(['none', 'zero', 'near', 'half', 'other']))
    d = draw(gen.vec(nparams(n), gen.smooth(.3)))
    return dict(n=n, scale=hs, th=th, start=start, d=d, full=draw(st.booleans()), member=draw(st.booleans()),
                maxp=draw(st.sampled_from(['default', None, 5.])),
                method=method)


def start(c, th):
    return dict(none=None, zero=np.zeros(len(th)), near=th + np.array(c['d']) / 3, half=th / 2,
                other=np.array(c['d']))[c['start']]


@P.sub('recover', case, quick=150, thorough=3000)
def recover(c, ctx):
    n, th = c['n'], np.array(c['th'], float)
    C = mean_obs(th, n)
    s = solver(n)
    kw = dict(full_output=True)
    if c['method'] != 'default':
        kw['scipy_solver_kwargs'] = dict(method=c['method'], options=dict(xtol=1e-12))
    if c['maxp'] != 'default':
        kw['max_param_value'] = c['maxp']
    x0 = start(c, th)
    keep = None if x0 is None else x0.copy()
    # where the optimiser of scipy itself is known to converge; elsewhere it may give up, and say so
    must = c['scale'] <= .25 if c['method'] == 'default' else n < 5 or c['scale'] <= .6
    if c['member']:
        s.constraints = C.copy()
    else:
        kw['constraints'] = C.copy()
    try:
        r = s.solve(initial_guess=x0, **kw)
    except ValueError:
        if must:
            raise
        return ctx.tag('no convergence')
    need(type(r) is tuple and len(r) == 2, 'full output is %r', type(r))
    r, out = r
    same(r, out['x'], 'solution and the x of the optimiser output')
    same(r, s.multipliers, 'returned and stored parameters')
    if keep is not None:
        same(x0, keep, 'the starting point (not to be changed)')
    if not must and not out['success']:
        return ctx.tag('no convergence')
    if not c['full']:
        kw['full_output'] = False
        close(s.solve(initial_guess=x0, **kw), r, 'solution without full output', rtol=0, atol=1e-12)
    judge(r, C, n, 'enumerate', 1e-8)
    judge_theta(r, th, n, 'enumerate', 1e-8)
    ctx.tag('start ' + c['start'])
    ctx.tag('n=%d' % n)
    ctx.trivial(not th.any())


@st.composite
def data_case(draw):
    n = draw(st.integers(2, 4))
    w = draw(st.lists(st.integers(1, 12), min_size=2 ** n, max_size=2 ** n))
    return dict(n=n, w=w, explicit=draw(st.booleans()), seed=draw(gen.seeds), small=draw(st.booleans()))


@P.sub('from_data', data_case, quick=60, thorough=1500)
def from_data(c, ctx):
    """Constraints come from the data set; explicit ones override."""
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)
    X = X[np.random.RandomState(c['seed']).permutation(len(X))]
    C = monomials(X).mean(0)
    s = solver(n, X.copy())
    same(s.sample, X, 'stored data')
    close(s.constraints, C, 'constraints from data', atol=1e-12)
    if c['explicit']:
        X2 = np.repeat(states(n, True), np.array(c['w'])[::-1] + 1, axis=0)
        C = monomials(X2).mean(0)
        r = s.solve(constraints=C, scipy_solver_kwargs=HYBR)
        ctx.tag('explicit constraints override')
    elif c['small']:
        r = s.solve(scipy_solver_kwargs=HYBR)
    else:
        r = converged(s, ctx)
    if r is None:
        return
    judge(r, C, n, 'enumerate', 1e-8)
    ctx.trivial(len(set(c['w'])) == 1)


def minimizable(x0, C, n, method, opt, obs):
    """The optimiser of scipy gets from the starting point to the solution when given the exact objective; simplex methods may
    stall elsewhere."""
    from scipy.optimize import minimize as scipy_minimize
    f = lambda x: np.linalg.norm(obs(x) - C) if np.abs(x).max() <= 50 else 1e30
    return scipy_minimize(f, np.zeros(len(C)) if x0 is None else x0, method=method, options=opt)['fun'] < 1e-5


@st.composite
def min_case(draw):
    n = draw(st.integers(2, 3))
    return dict(n=n, th=draw(gen.theta(n, elem=gen.smooth(.7))), d=draw(gen.theta(n, elem=gen.smooth(.3))),
                start=draw(st.sampled_from(['none', 'near', 'half', 'other'])), full=draw(st.booleans()),
                method=draw(st.sampled_from(['Nelder-Mead', 'Powell'])), maxp=draw(st.sampled_from(['default', None])))


@P.sub('large_data', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 5), w=gen.vec(4, st.integers(1, 3000)), seed=gen.seeds)), quick=10, thorough=150)
def large_data(c, ctx):
    """Data sets of thousands of rows."""
    n = c['n']
    r = np.random.RandomState(c['seed'])
    w = np.array(c['w'])[r.randint(0, 4, 2 ** n)]
    X = np.repeat(states(n, True), w, axis=0)
    s = solver(n, X)
    C = monomials(X).mean(0)
    close(s.constraints, C, 'constraints from data', rtol=0, atol=1e-12)
    x = s.solve(scipy_solver_kwargs=HYBR, full_output=True)
    if not x[1]['success']:
        return ctx.tag('no convergence')
    judge(x[0], C, n, 'enumerate', 1e-8)
    ctx.tag('more than 5000 rows', len(X) > 5000)
    ctx.trivial(len(set(w.tolist())) == 1)


@P.sub('minimize', min_case, quick=40, thorough=800)
def minimize(c, ctx):
    n, th = c['n'], np.array(c['th'], float)
    C = mean_obs(th, n)
    s = solver(n)
    opt = {'maxiter': 20000, 'maxfev': 40000}
    opt.update({'xatol': 1e-10, 'fatol': 1e-12} if c['method'] == 'Nelder-Mead' else {'xtol': 1e-10, 'ftol': 1e-12})
    kw = {} if c['maxp'] == 'default' else dict(max_param_value=c['maxp'])
    x0 = start(c, th)
    r = s.solve(initial_guess=x0, constraints=C, use_root=False, full_output=c['full'],
                scipy_solver_kwargs=dict(method=c['method'], options=opt), **kw)
    if c['full']:
        r, out = r
        close(out['fun'], np.linalg.norm(mean_obs(r, n) - C), 'reported objective', rtol=1e-6, atol=1e-9)
    if minimizable(x0, C, n, c['method'], opt, lambda x: mean_obs(x, n)):
        judge(r, C, n, 'minimize', 1e-3)
    else:
        ctx.tag('the method stalls')
    ctx.tag(c['method'])
    ctx.trivial(not th.any())


@st.composite
def bound_case(draw):
    n = draw(st.integers(2, 3))
    return dict(n=n, th=draw(gen.theta(n, elem=gen.smooth(.6))), maxp=draw(st.sampled_from([.3, 1., 3.])),
                d=draw(gen.theta(n, elem=gen.smooth(.1))))


@P.sub('bounds', bound_case, quick=40, thorough=800)
def bounds(c, ctx):
    """No solution beyond the largest value allowed."""
    n, th = c['n'], np.array(c['th'], float)
    s = solver(n)
    r = s.solve(constraints=mean_obs(th, n), initial_guess=np.clip(np.array(c['d']), -.2, .2), max_param_value=c['maxp'], use_root=False,
                scipy_solver_kwargs=dict(method='Nelder-Mead', options=dict(maxiter=400)))
    need(np.abs(r).max() <= c['maxp'], 'parameter %g beyond the largest value %g', np.abs(r).max(), c['maxp'])
    ctx.tag('solution outside the bound', np.abs(th).max() > c['maxp'])


@st.composite
def other_case(draw):
    kind = draw(st.sampled_from(['01', 'triplet']))
    n = draw(st.integers(2, 5)) if kind == '01' else 5
    o = 2 if kind == '01' else 3
    return dict(kind=kind, n=n, th=draw(gen.theta(n, order=o, elem=gen.smooth(.6 if kind == '01' else .25))),
                near=draw(st.booleans()))


class Wrapped:
    def __init__(self, mod, size):
        self.calc_observables, self.multipliers = mod.calc_observables, np.zeros(size)


@P.sub('other_models', other_case, quick=50, thorough=800)
def other_models(c, ctx):
    """Any model that computes its observables can be solved: {0,1} basis and triplets."""
    import importlib
    from coniii.solvers import Enumerate
    n, th = c['n'], np.array(c['th'], float)
    order, sym = (2, False) if c['kind'] == '01' else (3, True)
    mod = importlib.import_module('coniii.ising_eqn.ising_eqn_%d%s' % (n, '' if c['kind'] == '01' else '_sym_triplet'))
    s = Enumerate(n, model=Wrapped(mod, len(th)), calc_observables=models.ising_helpers()[1], iprint=False)
    C = mean_obs(th, n, sym, order)
    kw = dict(constraints=C, initial_guess=th * .9 if c['near'] else None)
    r = converged(s, ctx, **kw) if n < 4 else s.solve(scipy_solver_kwargs=HYBR, **kw)
    if r is None:
        return
    judge(r, C, n, c['kind'], 1e-8, sym, order)
    judge_theta(r, th, n, c['kind'], 1e-8, sym, order)
    ctx.tag(c['kind'])
    ctx.trivial(not th.any())


@P.sub('default_setup', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 9), as_sample=st.booleans(), seed=gen.seeds)), quick=6, thorough=60)
def default_setup(c, ctx):
    """The solver builds the model by itself."""
    from coniii.solvers import Enumerate
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    if c['as_sample']:
        X = rng.choice([-1, 1], size=(400, n))
        s = Enumerate(X, iprint=False)
        C = monomials(X).mean(0)
        r = s.solve()
    else:
        s = Enumerate(n, iprint=False)
        C = mean_obs(rng.uniform(-.2, .2, nparams(n)), n)
        r = s.solve(constraints=C)
    judge(r, C, n, 'default', 1e-7)
    ctx.tag('n=%d' % n)


@st.composite
def strong_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, base=draw(gen.vec(nparams(n), st.integers(-3, 3))), unit=draw(st.sampled_from([1., 2., 3.])), maxp=draw(st.sampled_from([None, 20.])),
                th=draw(gen.vec(nparams(n), gen.smooth(.5))), d=draw(gen.vec(nparams(n), gen.smooth(.1))))


@P.sub('strong_parameters', strong_case, quick=60, thorough=1500)
def strong_parameters(c, ctx):
    """Parameters far from zero are found from near by wherever the optimiser of scipy does so on the exact equations."""
    from scipy.optimize import root
    n = c['n']
    th = np.array(c['base']) * c['unit'] + np.array(c['th'])
    C = mean_obs(th, n)
    x0 = th + np.array(c['d'])
    f = lambda x: mean_obs(x, n) - C
    for d in (0., 1e-7, -1e-7, 1e-8, -3e-9, 1e-6, -1e-6):      # rounding differs between formulas
        o = root(f, x0 + d, **HYBR)
        if not o['success'] or np.abs(f(o['x'])).max() > 1e-9:
            return ctx.tag('no convergence')
    r, out = solver(n).solve(constraints=C, initial_guess=x0, scipy_solver_kwargs=HYBR, full_output=True,
                             **({} if c['maxp'] is None else dict(max_param_value=c['maxp'])))
    ctx.tag('success reported', out['success'])
    judge(r, C, n, 'enumerate from nearby', 1e-6 if out['success'] else 1e-3)
    ctx.tag('above 5', np.abs(th).max() > 5)
    ctx.trivial(not th.any())


@P.sub('without_data', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 5), seed=gen.seeds, own=st.booleans())), quick=20, thorough=300)
def without_data(c, ctx):
    """A model and its correlations are all that is needed."""
    from coniii.solvers import Enumerate
    n = c['n']
    f = models.ising_helpers()[1]
    s = Enumerate(None, model=models.ising(n), iprint=False, **(dict(calc_observables=lambda X: 2. * f(X)) if c['own'] else {}))
    th = np.random.RandomState(c['seed']).uniform(-.3, .3, nparams(n))
    judge(s.solve(constraints=mean_obs(th, n), scipy_solver_kwargs=HYBR), mean_obs(th, n), n, 'enumerate', 1e-8)
    X = states(n, True).astype(np.int64)
    close(s.calc_observables(X), f(X) * (2. if c['own'] else 1.), 'observables of the solver', atol=1e-12)


@P.sub('recover_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(7, 9), scale=st.sampled_from([.05, .15, .25]), seed=gen.seeds, maxp=st.sampled_from(['default', None, 5.]),
       start=st.sampled_from(['none', 'near'])), ), quick=5, thorough=60)
def recover_larger(c, ctx):
    """The largest systems whose equations are part of the package."""
    n = c['n']
    r = np.random.RandomState(c['seed'])
    th = r.uniform(-1, 1, nparams(n)) * c['scale']
    C = mean_obs(th, n)
    s = solver(n)
    kw = dict(scipy_solver_kwargs=HYBR, full_output=True)
    if c['maxp'] != 'default':
        kw['max_param_value'] = c['maxp']
    if c['start'] == 'near':
        kw['initial_guess'] = th + r.uniform(-.02, .02, len(th))
    x, out = s.solve(constraints=C.copy(), **kw)
    same(x, s.multipliers, 'returned and stored parameters')
    judge(x, C, n, 'enumerate', 1e-7)
    judge_theta(x, th, n, 'enumerate', 1e-7)
    ctx.tag('n=%d' % n)
    ctx.trivial(False)


@st.composite
def again_case(draw):
    n = draw(st.integers(2, 4))
    op = st.fixed_dictionaries(dict(method=st.sampled_from(['default', 'hybr', 'minimize']), guess=st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.1))),
                                    maxp=st.sampled_from(['default', None, 6.]), full=st.booleans(),
                                    th=st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.2)))))
    return dict(n=n, w=draw(st.lists(st.integers(5, 9), min_size=2 ** n, max_size=2 ** n)), ops=draw(st.lists(op, min_size=2, max_size=4)))


def again_keywords(o, C):
    kw = dict(full_output=o['full'], initial_guess=None if o['guess'] is None else np.array(o['guess']))
    if C is not None:
        kw['constraints'] = C
    if o['maxp'] != 'default':
        kw['max_param_value'] = o['maxp']
    if o['method'] == 'hybr':
        kw['scipy_solver_kwargs'] = HYBR
    if o['method'] == 'minimize':
        kw.update(use_root=False, scipy_solver_kwargs=dict(method='Nelder-Mead', options=dict(maxiter=30)))
    return kw


@P.sub('solved_again', again_case, quick=40, thorough=800)
def solved_again(c, ctx):
    from vh import again
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)
    ops = sorted(c['ops'], key=lambda o: o['th'] is not None)      # those with constraints of their own come last

    def go(s, o):
        r = s.solve(**again_keywords(o, None if o['th'] is None else mean_obs(np.array(o['th']), n)))
        r = r[0] if o['full'] else r
        return np.asarray(r), np.asarray(s.multipliers)
    again.check(lambda: solver(n, X.copy()), ops, go, 'enumerate')
    ctx.trivial(len(set(c['w'])) == 1)
