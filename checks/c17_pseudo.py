"""C17: pseudo-likelihood solutions."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, potts_states, potts_features, subsets

P = Prop('C17', 'generated data sets with a finite optimum, parameters at which objective and gradient are read off, whole distributions of '
         'generated models; non-trivial: data that are not uniform')
_S = {}


def solver(X, order=2):
    """Pseudo solver on data X; compiled helper functions are reused."""
    from coniii.solvers import Pseudo
    n = X.shape[1]
    if n not in _S:
        from coniii import utils
        _S[n] = utils.define_pseudo_ising_helper_functions(n)
    return Pseudo(X, model=models.ising(n), calc_observables=models.ising_helpers()[1], get_multipliers_r=_S[n][0],
                  calc_observables_r=_S[n][1], iprint=False)


def pix(n, order=2):
    """Parameter index of every interaction."""
    out, k = {}, 0
    for o in range(1, order + 1):
        for ix in subsets(n, o):
            out[ix] = k
            k += 1
    return out


def cond_ll(X, r, th, order=2, sym=True):
    """Sum over data of log p(s_r | rest), with gradient, from the two completions of every state."""
    n = X.shape[1]
    A, B = X.copy(), X.copy()
    B[:, r] = -B[:, r] if sym else 1 - B[:, r]
    D = monomials(B, order) - monomials(A, order)
    d = D.dot(th)
    ll = -np.logaddexp(0, d).sum()
    g = -(D / (1 + np.exp(-d))[:, None]).sum(0)
    H = -(D * (1 / (2 + np.exp(-d) + np.exp(d)))[:, None]).T.dot(D)
    return ll, g, H


def newton(f, x):
    """Maximum of a concave function by damped Newton steps."""
    v, g, H = f(x)
    for _ in range(200):
        if np.abs(g).max() < 1e-11 * max(1, abs(v)):
            break
        step = -np.linalg.lstsq(H, g, rcond=None)[0]
        t = 1.
        while t > 1e-6:
            w = f(x + t * step)
            if w[0] >= v + 1e-4 * t * g.dot(step) - 1e-12 * abs(v):
                break
            t /= 2
        x = x + t * step
        v, g, H = w
    return x, H


def rows(n, r):
    """Indices of the parameters of spin r: its field, then its couplings in order of the other spin."""
    ix = pix(n)
    return [ix[(r,)]] + [ix[tuple(sorted((r, j)))] for j in range(n) if j != r]


@st.composite
def data(draw, nmax=4, k=2):
    """Integer weights of all states; every state has some, so that the optimum is finite."""
    n = draw(st.integers(2, nmax))
    w = draw(st.lists(st.integers(1, 9), min_size=k ** n, max_size=k ** n))
    return dict(n=n, w=w, seed=draw(gen.seeds))


def expand(c, S):
    X = np.repeat(S, c['w'], axis=0)
    return X[np.random.RandomState(c['seed']).permutation(len(X))]


@st.composite
def obj_case(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, X=draw(gen.sample(n, 1, 12)), th=draw(gen.theta(n, elem=gen.smooth(2.))))


@P.sub('objective', obj_case, quick=200, thorough=5000)
def objective(c, ctx):
    """Objective and gradient reported without any step, for data of any kind."""
    n, X, th = c['n'], np.array(c['X']), np.array(c['th'], float)
    s = solver(X)
    kw = dict(initial_guess=th.copy(), full_output=True, solver_kwargs=dict(options=dict(maxiter=0)))
    m, out = s.solve(**kw)
    need(len(out) == n, '%d optimiser outputs for %d spins', len(out), n)
    J = np.zeros((n, n))
    for r in range(n):
        x = np.asarray(out[r]['x'])
        v = np.zeros(nparams(n))
        v[rows(n, r)] = x
        close(x, th[rows(n, r)], 'point at which the objective of spin %d starts' % r, rtol=0, atol=0)
        ll, g, _ = cond_ll(X, r, v)
        close(-out[r]['fun'], ll, 'conditional log-likelihood of spin %d' % r, rtol=1e-9, atol=1e-9)
        close(-np.asarray(out[r]['jac']), g[rows(n, r)], 'its gradient', rtol=1e-9, atol=1e-9)
        J[r, r] = x[0]
        J[r, [j for j in range(n) if j != r]] = x[1:]
    J = (J + J.T) / 2
    close(m, np.concatenate([J.diagonal(), J[np.triu_indices(n, 1)]]), 'combination of the spins', rtol=1e-12, atol=1e-13)
    g2, out2 = s.solve(force_general=True, **kw)
    close(g2, th, 'parameters before any step', rtol=0, atol=0)
    parts = [cond_ll(X, r, th) for r in range(n)]
    close(-out2['fun'], sum(p[0] for p in parts), 'total log pseudo-likelihood', rtol=1e-9, atol=1e-9)
    close(-np.asarray(out2['jac']), sum(p[1] for p in parts), 'gradient of the total', rtol=1e-9, atol=1e-9)
    ctx.trivial(not th.any())


def tol(H, N):
    """What a gradient of the optimiser's tolerance allows for the parameters."""
    lam = max(1e-12, -np.linalg.eigvalsh(H)[-1])
    return 2e-3 * np.sqrt(N) / lam + 1e-6


def expected_ising(X):
    n = X.shape[1]
    J, t = np.zeros((n, n)), 0.
    for r in range(n):
        ix = rows(n, r)

        def f(x):
            v = np.zeros(nparams(n))
            v[ix] = x
            ll, g, H = cond_ll(X, r, v)
            return ll, g[ix], H[np.ix_(ix, ix)]
        x, H = newton(f, np.zeros(n))
        J[r, r] = x[0]
        J[r, [j for j in range(n) if j != r]] = x[1:]
        t = max(t, tol(H, len(X)))
    J = (J + J.T) / 2
    return np.concatenate([J.diagonal(), J[np.triu_indices(n, 1)]]), t


def expected_general(X, order=2):
    n = X.shape[1]

    def f(x):
        parts = [cond_ll(X, r, x, order) for r in range(n)]
        return tuple(sum(p[i] for p in parts) for i in range(3))
    x, H = newton(f, np.zeros(nparams(n, order)))
    return x, tol(H, len(X))


@st.composite
def sol_case(draw):
    c = draw(data())
    c['guess'] = draw(st.one_of(st.none(), gen.theta(c['n'], elem=gen.smooth(.5)), gen.theta(c['n'], elem=st.integers(-1, 1))))
    c['general'] = draw(st.booleans())
    c['full'] = draw(st.booleans())
    return c


@P.sub('solution', sol_case, quick=100, thorough=3000)
def solution(c, ctx):
    n = c['n']
    X = expand(c, states(n, True))
    x, t = expected_general(X) if c['general'] else expected_ising(X)
    s = solver(X.copy())
    g = None if c['guess'] is None else np.array(c['guess'])  # of integers, sometimes
    kw = dict(force_general=True) if c['general'] else {}
    r = s.solve(initial_guess=g, full_output=c['full'], **kw)
    if c['full']:
        r, out = r
    same(r, s.multipliers, 'returned and stored parameters')
    if g is not None:
        same(g, c['guess'], 'the starting point (not to be changed)')
    same(s.sample, X, 'the data (not to be changed)')
    close(r, x, 'maximum pseudo-likelihood', rtol=0, atol=t)
    ctx.tag('general' if c['general'] else 'spin by spin')
    ctx.tag('integer starting point', g is not None and g.dtype.kind == 'i')
    ctx.trivial(len(set(c['w'])) == 1)


@st.composite
def large_case(draw):
    c = draw(sol_case())
    n = c['n'] = draw(st.integers(2, 3))
    c['guess'] = None
    c['w'] = draw(st.lists(st.sampled_from([20, 300, 4000]), min_size=2 ** n, max_size=2 ** n))
    return c


@P.sub('large_data', large_case, quick=8, thorough=100)
def large_data(c, ctx):
    solution(c, ctx)
    ctx.tag('more than 10000 rows', sum(c['w']) > 10000)


@st.composite
def whole_case(draw):
    """A pairwise model with rational Boltzmann weights: counts proportional to its probabilities."""
    n = draw(st.integers(2, 4))
    return dict(n=n, a=draw(gen.vec(n, st.integers(1, 3))), b=draw(gen.vec(n * (n - 1) // 2, st.integers(1, 2))),
                general=draw(st.booleans()))


def whole(c):
    S = states(c['n'], True)
    w = np.ones(len(S), int)
    for i, a in enumerate(c['a']):
        w = w * np.where(S[:, i] == 1, a, 1)
    for (i, j), b in zip(subsets(c['n'], 2), c['b']):
        w = w * np.where(S[:, i] == S[:, j], b, 1)
    th = np.concatenate([.5 * np.log(c['a']), .5 * np.log(c['b'])])
    return np.repeat(S, w, axis=0), th


@P.sub('whole_distribution', whole_case, quick=80, thorough=2000)
def whole_distribution(c, ctx):
    X, th = whole(c)
    r = solver(X).solve(**(dict(force_general=True) if c['general'] else {}))
    close(r, th, 'parameters of the model whose distribution is the data', rtol=0, atol=3e-4)
    ctx.tag('general' if c['general'] else 'spin by spin')
    ctx.trivial(not th.any())


@st.composite
def fresh_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, w=draw(st.lists(st.integers(1, 5), min_size=2 ** n, max_size=2 ** n)), seed=draw(gen.seeds),
                general=draw(st.booleans()))


@P.sub('default_setup', fresh_case, quick=4, thorough=40)
def default_setup(c, ctx):
    from coniii.solvers import Pseudo
    n = c['n']
    X = expand(c, states(n, True))
    s = Pseudo(X, iprint=False)
    x, t = expected_general(X) if c['general'] else expected_ising(X)
    close(s.solve(**(dict(force_general=True) if c['general'] else {})), x, 'maximum pseudo-likelihood', rtol=0, atol=t)
    ctx.tag('n=%d' % n)


@st.composite
def trip_case(draw):
    n = draw(st.integers(3, 4))
    return dict(n=n, w=draw(st.lists(st.integers(1, 6), min_size=2 ** n, max_size=2 ** n)), seed=draw(gen.seeds),
                th=draw(gen.theta(n, order=3, elem=gen.smooth(1.))))


class Any:
    pass


@P.sub('higher_order', trip_case, quick=40, thorough=1000)
def higher_order(c, ctx):
    """The general routine with functions for a third-order model, given by the caller."""
    from coniii.solvers import Pseudo
    n = c['n']
    X = expand(c, states(n, True))
    ix = pix(n, 3)
    mine = [[k for key, k in ix.items() if r in key] for r in range(n)]
    m = Any()
    s = Pseudo(X, model=m, calc_observables=lambda S: monomials(S, 3), iprint=False,
               get_multipliers_r=lambda r, p: (p[mine[r]], mine[r]),
               calc_observables_r=lambda r, S: monomials(S, 3)[:, mine[r]])
    th = np.array(c['th'], float)
    _, out = s.solve(initial_guess=th, full_output=True, solver_kwargs=dict(options=dict(maxiter=0)))
    parts = [cond_ll(X, r, th, 3) for r in range(n)]
    close(-out['fun'], sum(p[0] for p in parts), 'total log pseudo-likelihood', rtol=1e-9, atol=1e-9)
    close(-np.asarray(out['jac']), sum(p[1] for p in parts), 'gradient of the total', rtol=1e-9, atol=1e-8)
    x, t = expected_general(X, 3)
    close(s.solve(), x, 'maximum pseudo-likelihood', rtol=0, atol=t)


def potts_ll(X, th, k):
    """Total log pseudo-likelihood of a Potts model and its gradient."""
    n = X.shape[1]
    F = potts_features(X, k)
    ll, g = 0., np.zeros(len(th))
    for r in range(n):
        alt = []
        for a in range(k):
            Y = X.copy()
            Y[:, r] = a
            alt.append(potts_features(Y, k))
        L = np.array([A.dot(th) for A in alt])
        mx = L.max(0)
        Z = np.exp(L - mx)
        ll += (F.dot(th) - mx - np.log(Z.sum(0))).sum()
        W = Z / Z.sum(0)
        g += F.sum(0) - sum((A * W[a][:, None]).sum(0) for a, A in enumerate(alt))
    return ll, g


def potts_solver(X, k):
    from coniii.solvers import Pseudo
    n = X.shape[1]
    if ('p', n, k) not in _S:
        from coniii import utils, models as cm
        _S['p', n, k] = (utils.define_pseudo_potts_helper_functions(n, k),
                         cm.Potts3([np.zeros(3 * n), np.zeros(n * (n - 1) // 2)]))
    h, m = _S['p', n, k]
    return Pseudo(X, model=m, calc_observables=models.potts_helpers(k)[1], get_multipliers_r=h[0], calc_observables_r=h[1],
                  k=k, iprint=False)


@st.composite
def potts_case(draw):
    k = draw(st.sampled_from([2, 3, 3, 3, 4, 5]))
    n = draw(st.integers(2, 4))
    return dict(n=n, k=k, X=draw(gen.sample(n, 1, 10, range(k))), cost=draw(st.sampled_from([0, 0, .5])),
                th=draw(gen.vec(k * n + n * (n - 1) // 2, gen.smooth(1.5))))


@P.sub('potts_objective', potts_case, quick=120, thorough=3000, soft=200)
def potts_objective(c, ctx):
    n, k, X, th = c['n'], c['k'], np.array(c['X']), np.array(c['th'], float)
    s = potts_solver(X, k)
    kw = {}
    if c['cost']:
        kw = dict(cost_fcn=lambda x: c['cost'] * (x ** 2).sum(), cost_fcn_jac=lambda x: 2 * c['cost'] * x)
    m, out = s.solve(initial_guess=th, full_output=True, solver_kwargs=dict(options=dict(maxiter=0)), **kw)
    ll, g = potts_ll(X, th, k)
    close(out['fun'], -ll + c['cost'] * (th ** 2).sum(), 'objective', rtol=1e-9, atol=1e-9)
    close(out['jac'], -g + 2 * c['cost'] * th, 'its gradient', rtol=1e-8, atol=1e-8)
    same(m, th, 'parameters before any step')
    ctx.tag('%d states' % k)
    ctx.tag('with cost', c['cost'] > 0)


@st.composite
def potts_sol(draw):
    n = draw(st.integers(2, 3))
    return dict(n=n, a=draw(gen.vec(3 * n, st.integers(1, 3))), b=draw(gen.vec(n * (n - 1) // 2, st.integers(1, 2))),
                w=draw(st.one_of(st.none(), st.lists(st.integers(1, 5), min_size=3 ** n, max_size=3 ** n))))


@P.sub('potts_solution', potts_sol, quick=40, thorough=800)
def potts_solution(c, ctx):
    n = c['n']
    S = potts_states(n, 3)
    if c['w'] is None:
        w = np.ones(len(S), int)
        for s_ in range(3):
            for i in range(n):
                w = w * np.where(S[:, i] == s_, c['a'][s_ * n + i], 1)
        for (i, j), b in zip(subsets(n, 2), c['b']):
            w = w * np.where(S[:, i] == S[:, j], b, 1)
    else:
        w = np.array(c['w'])
    X = np.repeat(S, w, axis=0)
    s = potts_solver(X, 3)
    r = s.solve()
    same(r, s.multipliers, 'returned and stored parameters')
    ll, g = potts_ll(X, r, 3)
    need(np.abs(g).max() < 2e-3 * np.sqrt(len(X)), 'gradient of the pseudo-likelihood at the solution is %g', np.abs(g).max())
    if c['w'] is None:
        a = np.log(np.array(c['a'], float)).reshape(3, n)
        got = r[:3 * n].reshape(3, n)
        close(got - got.mean(0), a - a.mean(0), 'fields (up to a constant per spin)', rtol=0, atol=2e-3)
        close(r[3 * n:], np.log(c['b']), 'couplings', rtol=0, atol=2e-3)
        ctx.tag('whole distribution')


@P.sub('objective_many_spins', gen.large(7, 14, rows=60, scales=(.1, 1., 8.), rep=st.sampled_from([1, 1, 200]), vals=((-1, 1),), size=st.sampled_from([7, 10, 13])), quick=12, thorough=200)
def objective_many(c, ctx):
    c = dict(c, n=c['size'])
    th, X = gen.bulk(c, nparams(c['n']))
    objective(dict(n=c['n'], X=np.repeat(X, c['rep'], axis=0), th=th), ctx)


@P.sub('larger_solution', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([6, 8, 10]), rows=st.integers(300, 900), seed=gen.seeds, general=st.booleans(),
       dtype=st.sampled_from(['int64', 'int64', 'int8']))), quick=6, thorough=80)
def larger_solution(c, ctx):
    """Data as they are met in practice: more spins than states could be listed, each state seen once or so."""
    r = np.random.RandomState(c['seed'])
    n = c['n']
    X = np.where(r.rand(c['rows'], n) < r.uniform(.3, .7, n), 1, -1)
    follow = r.rand(c['rows']) < .4
    X[follow, n - 1] = X[follow, 0]
    x, t = expected_general(X) if c['general'] else expected_ising(X)
    s = solver(X.astype(c['dtype']))
    m = s.solve(**(dict(force_general=True) if c['general'] else {}))
    same(m, s.multipliers, 'returned and stored parameters')
    close(m, x, 'maximum pseudo-likelihood', rtol=0, atol=t)
    need(abs(m[n + n - 2]) > .1, 'coupling of spins that follow each other: %g', m[n + n - 2])
    ctx.tag('general' if c['general'] else 'spin by spin')
    ctx.trivial(False)


@st.composite
def again_case(draw):
    n = draw(st.integers(2, 4))
    op = st.fixed_dictionaries(dict(general=st.booleans(), full=st.booleans(), guess=st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.3)))))
    return dict(n=n, w=draw(st.lists(st.integers(2, 9), min_size=2 ** n, max_size=2 ** n)), ops=draw(st.lists(op, min_size=2, max_size=4)), sparse=draw(st.booleans()))


@P.sub('solved_again', again_case, quick=30, thorough=600)
def solved_again(c, ctx):
    from vh import again
    n = c['n']
    X = np.repeat(states(n, True), c['w'], axis=0)

    def go(s, o):
        r = s.solve(initial_guess=None if o['guess'] is None else np.array(o['guess']), full_output=o['full'],
                    **(dict(force_general=True) if o['general'] else {}))
        r = r[0] if o['full'] else r
        return np.asarray(r), np.asarray(s.multipliers)
    again.check(lambda: solver(X.copy()), c['ops'], go, 'pseudo', atol=1e-4)
    ctx.trivial(len(set(c['w'])) == 1)
