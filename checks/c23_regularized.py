"""C23: regularized mean field.  The search calls the sampler many times; most sub-checks replace the sampler of the model
by exact quotas of every state, which makes the objective a deterministic function of the regularization."""
import contextlib, io, warnings
import numpy as np
from hypothesis import strategies as st
from vh import gen, models, mf
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, boltzmann, subsets, raises

P = Prop('C23', 'generated data and brackets; non-trivial: correlated data and a solution that is not at the edge of the bracket')
QUOTA = 20000
_M = {}


def quota(n):
    """Model whose samples contain every state as often as its probability asks for."""
    if n not in _M:
        base = type(models.ising(n))

        class Quota(base):
            def generate_sample(self, *a, **k):
                th = k.get('multipliers')
                self.sample = quota_sample(self.multipliers if th is None else th, self.n)
                if getattr(self, 'sampler', None) is not None:
                    self.sampler.sample = self.sample

            def setup_sampler(self, *a, **k):
                if getattr(self, 'sampler', None) is None:
                    base.setup_sampler(self, *a, **k)
        with contextlib.redirect_stdout(io.StringIO()):
            _M[n] = Quota(np.zeros(nparams(n)), rng=np.random.RandomState(0))
    m = _M[n]
    m.set_multipliers(np.zeros(nparams(n)))
    m.set_rng(np.random.RandomState(0)) if getattr(m, 'sampler', None) is not None else None
    return m


def quota_counts(th, n):
    with np.errstate(all='ignore'):
        p = boltzmann(th, n)
    if not np.isfinite(p).all():
        p = np.ones(2 ** n) / 2 ** n
    return np.diff(np.concatenate([[0], np.floor(np.cumsum(p) * QUOTA + .5)])).astype(int)


def quota_sample(th, n):
    return np.repeat(states(n, True), quota_counts(th, n), axis=0)


@st.composite
def data(draw, lo=2, hi=4):
    n = draw(st.integers(lo, hi))
    top = draw(st.sampled_from([3, 9, 30]))
    w = draw(st.lists(st.integers(1, top), min_size=2 ** n, max_size=2 ** n))
    return dict(n=n, w=w)


class Ref:
    """The family of mean-field solutions and the objective of the search."""
    def __init__(self, X):
        self.n, self.N = X.shape[1], len(X)
        self.U = mf.cooc((X + 1) / 2)
        self.pm = np.diag(self.U).mean()

    def theta(self, gp):
        g = gp / (self.pm ** 2 * (1 - self.pm) ** 2) / self.N
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return mf.to11(mf.from_matrix(mf.mean_field(self.U, range(self.n), g)[1].real), self.n)

    def cost(self, gp):
        return self.cost_of(self.theta(gp))

    def cost_of(self, th):
        c = quota_counts(th, self.n)
        V = np.triu((monoms(self.n).T * c).dot(monoms(self.n)) / c.sum())
        B = (self.U * self.N + 1) / (self.N + 2)
        sd = np.sqrt(B * (1 - B) / self.N)
        k = np.triu_indices(self.n)
        return (((V - self.U)[k] / sd[k]) ** 2).sum()

    def member(self, th):
        """The regularization (scaled as in the search) at which th is the mean-field solution, or None."""
        grid = np.concatenate([[0], np.logspace(-7, 4, 500)])
        d = np.array([np.abs(self.theta(g) - th).max() for g in grid])
        d[~np.isfinite(d)] = np.inf
        for i in np.argsort(d, kind='stable')[:4]:
            from scipy.optimize import minimize_scalar
            lo, hi = grid[max(0, i - 1)], grid[min(len(grid) - 1, i + 1)]
            r = minimize_scalar(lambda g: np.abs(self.theta(g) - th).max(), bounds=(lo, hi), method='bounded', options=dict(xatol=1e-13 * max(1, abs(lo))))
            for g, v in ((r.x, r.fun), (grid[i], d[i])):
                if v < 1e-6 * max(1, np.abs(th).max()):
                    return float(g)
        return None


def monoms(n):
    return states(n, False).astype(float)


def run(X, model, **kw):
    from coniii.solvers import RegularizedMeanField
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = RegularizedMeanField(X, model=model, calc_observables=models.ising_helpers()[1], sample_size=kw.pop('sample_size', 100))
        r = s.solve(**kw)
    same(r, s.multipliers, 'returned and stored parameters')
    return np.asarray(r, float)


@P.sub('default_search', lambda: data(2, 5), quick=60, thorough=1200)
def default_search(c, ctx):
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)
    keep = X.copy()
    ref = Ref(X)
    r = run(X, quota(n))
    same(X, keep, 'the data (not to be changed)')
    g = ref.member(r)
    need(g is not None, 'the solution %s is no mean-field solution at any regularization that is not negative', r.tolist())
    best = min(ref.cost(0.), ref.cost(1.))
    need(ref.cost_of(r) <= best * (1 + 1e-4) + 1e-8, 'objective %r at the solution, but %r at the ends of the first bracket', ref.cost_of(r), best)
    ctx.tag('positive', g > 1e-9)
    ctx.tag('none', g <= 1e-9)
    ctx.trivial(len(set(c['w'])) == 1 or abs(g) < 1e-9)


@st.composite
def bracket_case(draw):
    c = draw(data(3, 4))
    c['bracket'] = [draw(st.sampled_from([0., 1e-3, .01])), draw(st.sampled_from([.02, .1, 1., 4.]))]
    c['points'] = draw(st.sampled_from([5, 5, 6, 7, 9, 12, 30]))
    c['mid'] = draw(st.booleans())
    c['width'] = draw(st.sampled_from([.6, .9, 1.]))
    return c


@P.sub('bracketed_search', bracket_case, quick=80, thorough=1500)
def bracketed_search(c, ctx):
    c = dict(c)
    n, (a, b) = c['n'], c['bracket']
    X = np.repeat(states(n, True), c['w'], axis=0)
    ref = Ref(X)
    if c['mid']:
        # around the best of a coarse scan
        scan = np.logspace(-4, 1, 40)
        g0 = scan[int(np.argmin([ref.cost(g) for g in scan]))]
        a, b = g0 * (1 - c['width']), g0 * (1 + c['width'])
        c['bracket'] = [a, b]
    grid = np.linspace(a, b, c['points'])
    F = np.array([ref.cost(g) for g in grid])
    i = int(F.argmin())
    others = np.delete(F, i)
    clear = others.min() > F[i] * (1 + 1e-4) + 1e-8
    f = lambda: run(X, quota(n), bracket=tuple(c['bracket']), n_grid_points=c['points'])
    if not clear:
        ctx.tag('no clear minimum on the grid')
        return ctx.trivial()
    if i in (0, len(F) - 1):
        ctx.tag('minimum at the boundary')
        ctx.trivial()
        return raises(f, 'minimum at the boundary of the bracket')
    r = f()
    g = ref.member(r)
    need(g is not None, 'the solution %s is no mean-field solution at any regularization that is not negative', r.tolist())
    need(grid[int(F[:i].argmin())] - 1e-6 <= g <= grid[i + 1 + int(F[i + 1:].argmin())] + 1e-6,
         'regularization %r is outside of the points around the smallest of the grid (%r)', g, grid[i])
    need(ref.cost_of(r) <= F[i] * (1 + 1e-4) + 1e-8, 'objective %r at the solution, but %r on the grid', ref.cost_of(r), F[i])
    ctx.tag('solved')


@st.composite
def indep_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, a=draw(gen.vec(n, st.integers(1, 3))), b=draw(gen.vec(n, st.integers(1, 3))))


@P.sub('independent_data', indep_case, quick=30, thorough=400)
def independent_data(c, ctx):
    """Independent data need fields only, whatever the regularization."""
    n = c['n']
    S = states(n, True)
    w = [int(np.prod([c['a'][i] if s[i] > 0 else c['b'][i] for i in range(n)])) for s in S]
    X = np.repeat(S, w, axis=0)
    for kw in (dict(), dict(reset_rng=False)):
        r = run(X, quota(n), **kw)
        close(r[:n], .5 * np.log(np.array(c['a']) / np.array(c['b'])), 'fields', rtol=0, atol=1e-6)
        close(r[n:], np.zeros(len(r) - n), 'couplings', rtol=0, atol=1e-6)
    close(boltzmann(r, n).dot(S), X.mean(0), 'means', rtol=0, atol=1e-6)
    ctx.trivial(c['a'] == c['b'])


@st.composite
def perm_case(draw):
    c = draw(data(3, 4))
    c['perm'] = draw(st.permutations(range(c['n'])))
    return c


@P.sub('relabelled', perm_case, quick=20, thorough=300)
def relabelled(c, ctx):
    """Solutions of relabelled data are relabelled members of the same family at nearly the same objective."""
    n, pi = c['n'], list(c['perm'])
    X = np.repeat(states(n, True), c['w'], axis=0)
    ref = Ref(X)
    r, q = run(X, quota(n)), run(X[:, pi], quota(n))
    inv = np.argsort(pi)
    pairs = subsets(n, 2)
    back = np.concatenate([q[:n][inv], [q[n + pairs.index(tuple(sorted((int(inv[i]), int(inv[j])))))] for i, j in pairs]])
    need(ref.member(back) is not None, 'relabelled solution is not of the family')
    if abs(ref.cost_of(r) - ref.cost_of(back)) > .05 * ref.cost_of(r) + .05:
        ctx.tag('another local minimum')
    ctx.trivial(pi == sorted(pi))


@st.composite
def real_case(draw):
    c = draw(data(2, 4))
    c.update(seed=draw(gen.seeds), size=draw(st.sampled_from([100, 300])))
    return c


@P.sub('with_sampler', real_case, quick=4, thorough=60)
def with_sampler(c, ctx):
    """The solver as it is used: samples of the model; equal generators give equal solutions."""
    from coniii.models import Ising
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)
    ref = Ref(X)
    for reset in (True, False):
        out = []
        for k in range(2):
            m = Ising(np.zeros(nparams(n)), rng=np.random.RandomState(c['seed']), n_cpus=1)
            r = run(X, m, reset_rng=reset, sample_size=c['size'])
            out.append(r)
            need(ref.member(r) is not None, 'the solution %s is no mean-field solution at any regularization that is not negative', r.tolist())
        close(out[0], out[1], 'solutions with equal generators (reset: %s)' % reset, rtol=0, atol=1e-9)
    ctx.trivial(len(set(c['w'])) == 1)


@st.composite
def b1_case(draw):
    k = draw(st.integers(1, 12))
    x = sorted(set(draw(gen.vec(k, gen.reals(5.)))))
    return dict(x=x, f=draw(gen.vec(len(x), st.one_of(st.integers(-5, 5), gen.reals(3.)))), np=draw(st.booleans()))


@P.sub('bracket1d', b1_case, quick=500, thorough=10000)
def bracket1d(c, ctx):
    from coniii.solvers import RegularizedMeanField
    if 's' not in _M:
        _M['s'] = RegularizedMeanField(np.array([[1, 1], [-1, 1], [1, -1], [-1, -1]]), model=models.ising(2),
                                       calc_observables=models.ising_helpers()[1])
    x, f = list(c['x']), list(c['f'])
    if c['np']:
        x, f = np.array(x), np.array(f)
    low = [i for i in range(len(f)) if f[i] == min(f)]
    call = lambda: _M['s'].bracket1d(x, f)
    if set(low) <= {0, len(f) - 1}:
        ctx.tag('boundary')
        ctx.trivial(len(f) < 3)
        return raises(call, 'minimum at the boundary')
    if low[0] == 0 or low[-1] == len(f) - 1:
        return ctx.trivial()        # ambiguous: both an inner and an outer point are lowest
    a, b, d = [float(v) for v in call()]
    need(a < b < d and {a, b, d} <= set(float(v) for v in x), 'points %r', (a, b, d))
    at = lambda v: float(f[[float(u) for u in x].index(v)])
    need(at(b) == min(f), 'middle point %r is not the lowest', b)
    i = [float(u) for u in x].index(b)
    need(at(a) == min(f[:i]) and at(d) == min(f[i + 1:]), 'outer points are not the lowest on their sides')
    ctx.tag('inner')


@P.sub('rejects', cases=[dict()])
def rejects(c, ctx):
    X = states(2, True)
    m = quota(2)
    raises(lambda: run(X, m, priorLmbda=1.), 'prior')
    raises(lambda: run(X, m, min_independent=False), 'correlated residuals')
    raises(lambda: run(X, m, sample_size=0), 'empty samples')


@P.sub('larger_systems', lambda: st.fixed_dictionaries(dict(n=st.integers(6, 8), seed=gen.seeds, scale=st.sampled_from([.1, .25]), search=st.booleans(), points=st.sampled_from([5, 7]))),
       quick=8, thorough=100)
def larger_systems(c, ctx):
    """More than five spins, correlated at random."""
    n, r = c['n'], np.random.RandomState(c['seed'])
    p = boltzmann(r.uniform(-1, 1, nparams(n)) * c['scale'], n)
    w = (1 + np.round(p * 2 ** n * 4)).astype(int).tolist()
    if c['search']:
        default_search(dict(n=n, w=w), ctx)
    else:
        bracketed_search(dict(n=n, w=w, bracket=[0., 1.], points=c['points'], mid=True, width=.9), ctx)
    ctx.tag('n=%d' % n)


@st.composite
def again_case(draw):
    c = draw(data(2, 4))
    op = st.one_of(st.just(None), st.tuples(st.sampled_from([0., 1e-3, .01]), st.sampled_from([.02, .1, 1., 4.]), st.sampled_from([5, 6, 9])))
    c['ops'] = draw(st.lists(op, min_size=2, max_size=3))
    return c


@P.sub('solved_again', again_case, quick=20, thorough=400)
def solved_again(c, ctx):
    from coniii.solvers import RegularizedMeanField
    from vh import again
    X = np.repeat(states(c['n'], True), c['w'], axis=0)

    def go(s, o):
        try:
            return np.array(s.solve() if o is None else s.solve(bracket=[o[0], o[1]], n_grid_points=o[2]))
        except Exception as e:      # no minimum inside the bracket
            if 'boundary' not in str(e):
                raise
            ctx.tag('at the boundary')
            return np.zeros(0)
    again.check(lambda: RegularizedMeanField(X.copy(), model=quota(c['n']), calc_observables=models.ising_helpers()[1], sample_size=100), c['ops'],
                go, 'regularized mean field')
    ctx.trivial(len(set(c['w'])) == 1)
