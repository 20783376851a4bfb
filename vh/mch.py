"""Shared by the checks of the two Monte Carlo histogram solvers; a None subset is the dense one."""
import numpy as np
from hypothesis import strategies as st
from . import models
from .oracle import need, close, same, states, nparams, monomials, mean_obs


def build(n, ix=None, sample=None, size=1000, seed=0, boost=True, default_model=False):
    from coniii.solvers import MCH, SparseMCH
    from coniii.models import Ising
    m = models.ising(n)
    m.rng = np.random.RandomState(seed)
    kw = dict(model=m, calc_observables=models.ising_helpers()[1], mch_approximation=models.ising_helpers()[2], sample_size=size,
              iprint=False, sampler_kw=dict(boost=boost, iprint=False))
    if ix is None:
        return MCH(n if sample is None else sample, **kw)
    return SparseMCH(n if sample is None else sample, parameter_ix=np.array(ix, dtype=np.int64), **kw)


def full(x, ix, n):
    if ix is None:
        return np.array(x, float)
    v = np.zeros(nparams(n))
    v[np.asarray(ix)] = x
    return v


def reweighted(X, d):
    """Correlations of the sample reweighted to parameters that differ by d."""
    M = monomials(X)
    w = M.dot(d)
    w = np.exp(w - w.max())
    return w.dot(M) / w.sum()


def used(s, name):
    """Complain about a private name that no method of the solver mentions (nothing can be decided then)."""
    for k in type(s).__mro__:
        for f in vars(k).values():
            if name in getattr(getattr(f, '__code__', None), 'co_names', ()):
                return
    raise AttributeError(name, name=name, obj=s)


def inner(c, ctx, ix=None):
    """One round of parameter updates on a fixed sample."""
    n, X = c['n'], np.array(c['X'])
    sel = np.arange(nparams(n)) if ix is None else np.array(ix)
    s = build(n, ix)
    s.model.sample = X.copy()
    th0 = full(np.array(c['th'], float)[:len(sel)] if ix is not None else np.array(c['th'], float), ix, n)
    used(s, '_multipliers')
    s._multipliers = th0.copy()
    est = monomials(X).mean(0)[sel]
    C = np.array(c['C'], float)[sel] if c['C'] is not None else reweighted(X, full(np.array(c['d'], float)[:len(sel)], ix, n))[sel]
    if c['push'] is not None:  # only one constraint is not met
        j = c['push'][0] % len(sel)
        C = est.copy()
        C[j] = c['push'][1]
        ctx.tag('one constraint')
    kw = dict(maxdlamda=c['maxd'], eta=c['eta'])
    if c['norm'] is not None:
        kw['maxdlamdaNorm'] = c['norm']
    if c['steps'] is not None:
        kw['maxLearningSteps'] = c['steps']
    e0, C0 = est.copy(), C.copy()
    r = s.learn_parameters_mch(est, C, **kw)
    same(e0, est, 'estimates (not to be changed)')
    same(C0, C, 'constraints (not to be changed)')
    same(s.model.sample, X, 'the sample (not to be changed)')
    d = s._multipliers - th0
    same(np.delete(s._multipliers, sel), np.zeros(nparams(n) - len(sel)), 'parameters that are not to be fitted')
    close(r, reweighted(X, d)[sel], 'returned estimate: correlations of the sample reweighted by the change', rtol=1e-7, atol=1e-7)
    norm = 1. if c['norm'] is None else c['norm']
    steps = 50 if c['steps'] is None else c['steps']
    step = 2 * c['eta']
    need(np.abs(d).max() <= c['maxd'] + step + 1e-9, 'a parameter changed by %g although the maximum is %g', np.abs(d).max(), c['maxd'])
    need(np.linalg.norm(d) <= norm + step * np.sqrt(len(sel)) + 1e-9, 'change of norm %g although the maximum is %g',
         np.linalg.norm(d), norm)
    need(np.abs(d).max() <= (steps + 1) * step + 1e-9, 'a parameter changed by %g in %d steps', np.abs(d).max(), steps)
    err0 = est - C
    # the first step goes against the error, in proportion to eta
    if steps == 0:
        close(d[sel], -err0 * c['eta'], 'change after a single step', rtol=1e-9, atol=1e-12)
        ctx.tag('single step')
    if not np.abs(err0).any():
        close(d, 0 * d, 'change when the constraints are met', rtol=0, atol=1e-12)
    # the likelihood of the constraints grows under the reweighted model: C.d - log mean exp(obs.d) is concave in d
    # (a step of eta times the error cannot overshoot if eta times the largest variance is below 2; Popoviciu bounds the variance)
    U = np.unique(monomials(X)[:, sel], axis=0)
    if c['eta'] * max(((U - u)**2).sum(1).max() for u in U) / 4 < 2:
        ctx.tag('gain')
        E = monomials(X).dot(d)
        gain = C.dot(d[sel]) - np.log(np.mean(np.exp(E)))
        need(gain >= -1e-9, 'the change makes the constraints less likely (%g)', gain)
        if np.abs(err0).max() > 1e-6:
            need(gain > 0, 'the change makes the constraints no likelier')
    ctx.trivial(len(np.unique(X, axis=0)) < 2)


def long_run(c, ctx, ix=None):
    """Many small steps without bounds: the reweighted sample meets realizable constraints."""
    n, X = c['n'], np.array(c['X'])
    X = np.vstack([X, states(n, True)])
    sel = np.arange(nparams(n)) if ix is None else np.array(ix)
    s = build(n, ix)
    s.model.sample = X.copy()
    used(s, '_multipliers')
    s._multipliers = np.zeros(nparams(n))
    t = full(np.array(c['d'], float)[:len(sel)], ix, n)
    C = reweighted(X, t)[sel]
    est = monomials(X).mean(0)[sel]
    e0 = np.abs(est - C).max()
    r = s.learn_parameters_mch(est, C, maxdlamda=1e9, maxdlamdaNorm=1e9, maxLearningSteps=600, eta=.5)
    # steps shrink with the distance, so convergence is slow at the end
    close(r, C, 'correlations after many steps', rtol=0, atol=max(.02, .2 * e0) if e0 > .02 else .02)
    need(np.abs(r - C).max() <= e0 + 1e-12, 'correlations are further away than at the start')
    ctx.trivial(e0 < .02)


def jacobian(c, ctx):
    n, X = c['n'], np.array(c['X'])
    s = build(n)
    s.model.sample = X.copy()
    used(s, '_multipliers')
    s._multipliers = np.zeros(nparams(n))
    M = monomials(X)
    J = s.estimate_jac() if c['eps'] is None else s.estimate_jac(eps=c['eps'])
    need(np.shape(J) == (nparams(n),) * 2, 'Jacobian has shape %s', np.shape(J))
    close(J, (M - M.mean(0)).T.dot(M - M.mean(0)) / len(X), 'Jacobian: covariances of the sample', rtol=0, atol=2e-3)
    ctx.trivial(len(np.unique(X, axis=0)) < 2)


def whole(n):
    """Parameters that are whole numbers (and stored as such): one of them is not zero."""
    return st.builds(lambda i, v: [v if j == i else 0 for j in range(nparams(n))], st.integers(0, nparams(n) - 1), st.sampled_from([-1, 1]))


def bound(N, tau=1.):
    """Largest error of N draws of a quantity within [-1,1] at a false alarm probability of 1e-12."""
    return np.sqrt(2 * tau / N * np.log(2 / 1e-12))


def run(c, ctx, ix=None):
    """A whole solution."""
    n, th, N = c['n'], np.array(c['th'], float), c['N']
    k = nparams(n) if ix is None else len(ix)
    sel = np.arange(nparams(n)) if ix is None else np.array(ix)
    truth = full(th[:k], ix, n)
    C = mean_obs(truth, n)[sel]
    guess = None if c['guess'] is None else np.array(c['guess'])[:k]  # of integers, sometimes
    par = dict(maxdlamda=c['maxd'], eta=c['eta'])
    sizes = {}

    def go():
        hist = []
        sample = None
        if c['data']:
            # a data set whose correlations are close to the model's
            p = np.random.RandomState(5).choice(2 ** n, size=400, p=_p(truth, n))
            sample = states(n, True)[p]
        s = build(n, ix, sample, N, c['seed'], c['boost'])
        target = C if sample is None else monomials(sample).mean(0)[sel]

        def conv(i):
            hist.append((i, s._multipliers.copy()))
            if c['schedule'] and i >= 2:
                return par, N + 500
            return (par, N) if c['schedule'] else dict(par)
        kw = dict(n_iters=c['n_iters'], burn_in=50, maxiter=c['maxiter'], full_output=True)
        if sample is None:
            kw['constraints'] = C.copy()
        if c['record']:
            kw['custom_convergence_f'] = conv
        else:
            kw['learn_params_kwargs'] = dict(par)
        if c['tol']:
            kw.update(tol=c['tol'], tolNorm=c['tol'] * np.sqrt(k))
        g = None if guess is None else guess.copy()
        r = s.solve(initial_guess=g, **kw)
        if g is not None:
            same(g, guess, 'the starting point (not to be changed)')
        need(type(r) is tuple and len(r) == 3, 'full output is %r', type(r))
        return s, r, hist, target
    s, (x, flag, err), hist, target = go()
    x = np.asarray(x)
    need(x.shape == (k,), 'solution has shape %s', x.shape)
    need(err.ndim == 2 and err.shape[1] == k, 'error history has shape %s', err.shape)
    close(s.multipliers if ix is None else s.multipliers[sel], x, 'returned and stored parameters', rtol=0, atol=0)
    same(np.delete(s.multipliers, sel), np.zeros(nparams(n) - k), 'parameters that are not to be fitted')
    need(flag in (0, 1), 'flag %r', flag)
    tol = c['tol'] or 1 / np.sqrt(N)
    tolnorm = c['tol'] * np.sqrt(k) if c['tol'] else nparams(n) / np.sqrt(N)
    ok = [np.abs(e).max() < tol and np.linalg.norm(e) < tolnorm for e in err]
    if flag == 0:
        need(len(err) >= 2 and ok[-1], 'convergence is reported with an error of %g', np.abs(err[-1]).max())
        need(len(err) <= c['maxiter'] + 2, '%d errors although at most %d iterations were allowed', len(err), c['maxiter'])
    else:
        need(c['maxiter'] + 1 <= len(err) <= c['maxiter'] + 2, '%d errors although %d iterations were allowed', len(err), c['maxiter'])
        need(not ok[-1], 'no convergence is reported with an error of %g', np.abs(err[-1]).max())
    need(not any(ok[1:-1]), 'iterations go on after convergence (errors %s)', [float(np.abs(e).max()) for e in err])
    b = bound(N, 3.)
    vec = lambda v: mean_obs(full(v, ix, n), n)[sel]
    if flag == 0:
        need(np.abs(vec(x) - target).max() <= tol + b, 'convergence is reported, but a correlation of the solution is off by %g '
             '(tolerance %g)', np.abs(vec(x) - target).max(), tol)
        ctx.tag('converged')
    close(err[-1], vec(x) - target, 'last error and correlations of the solution', rtol=0, atol=b)
    start = np.zeros(k) if guess is None else guess
    close(err[0], vec(start) - target, 'first error and correlations of the starting point', rtol=0, atol=b)
    lim = c['maxd'] + 2 * c['eta']
    need(np.abs(x - start).max() <= (len(err) - 1) * lim + 1e-9, 'parameters move by %g in %d iterations', np.abs(x - start).max(),
         len(err) - 1)
    if c['record']:
        path = {}
        for i, m in hist:
            path[i] = m
        for i in range(len(err) - 1):
            need(i in path, 'settings of iteration %d are never asked for', i)
            same(np.delete(path[i], sel), np.zeros(nparams(n) - k), 'parameters that are not to be fitted')
            if i:
                close(err[i], vec(path[i][sel]) - target, 'error %d and correlations of the parameters' % i, rtol=0, atol=b)
            nxt = path[i + 1][sel] if i + 1 in path else x
            need(np.abs(nxt - path[i][sel]).max() <= lim + 1e-9, 'a parameter changes by %g although the maximum is %g',
                 np.abs(nxt - path[i][sel]).max(), c['maxd'])
        need(max(path) <= len(err) - 1, 'settings asked for iteration %d of %d', max(path), len(err) - 1)
        ctx.tag('path recorded')
    size = N + 500 if c['record'] and c['schedule'] and max(h[0] for h in hist) >= 2 else N
    need(s.model.sample.shape == (size, n), 'the sample left in the model has shape %s, expected %d rows', s.model.sample.shape, size)
    close(monomials(s.model.sample).mean(0), mean_obs(full(x, ix, n), n), 'sample left in the model and the solution', rtol=0, atol=b)
    if c['again']:
        _, (y, f2, e2), _, _ = go()
        same(y, x, 'second solution with an equal generator')
        same(e2, err, 'second error history with an equal generator')
        ctx.tag('repeated')
    ctx.trivial(not truth.any())


def _p(th, n):
    from .oracle import boltzmann
    return boltzmann(th, n)


def easy(c, ctx, ix=None):
    """Moderate parameters, enough samples and iterations: the solver converges."""
    n, th = c['n'], np.array(c['th'], float)
    k = nparams(n) if ix is None else len(ix)
    sel = np.arange(nparams(n)) if ix is None else np.array(ix)
    C = mean_obs(full(th[:k], ix, n), n)[sel]
    s = build(n, ix, None, 8000, c['seed'])
    r, flag, err = s.solve(constraints=C, tol=.08, tolNorm=.08 * np.sqrt(k), n_iters=20 + 10 * n, burn_in=100, maxiter=60, full_output=True,
                           learn_params_kwargs=dict(maxdlamda=.5, eta=.4))
    need(flag == 0, 'no convergence; errors %s', [round(float(np.abs(e).max()), 3) for e in err])
    need(np.abs(mean_obs(full(r, ix, n), n)[sel] - C).max() < .08 + bound(8000, 3.), 'a correlation is off by %g',
         np.abs(mean_obs(full(r, ix, n), n)[sel] - C).max())
    ctx.tag('%d iterations' % (len(err) - 1))
    ctx.trivial(not th.any())


def fixed(c, ctx, ix=None):
    """Updates of size zero: the solution is the starting point, and its correlations are those that are reported."""
    n, x0 = c['n'], np.array(c['guess'], float)
    k = nparams(n) if ix is None else len(ix)
    sel = np.arange(nparams(n)) if ix is None else np.array(ix)
    x0 = x0[:k]
    s = build(n, ix, None, c['N'], c['seed'], c['boost'])
    C = np.array(c['C'], float)[:k]
    kw = dict(constraints=C, initial_guess=x0.copy(), n_iters=20, burn_in=50, maxiter=c['maxiter'], tol=1e-9, tolNorm=1e-9)
    par = dict(maxdlamda=1., eta=0.)
    if c['schedule']:
        kw['custom_convergence_f'] = lambda i: dict(par)
    else:
        kw['learn_params_kwargs'] = par
    r = s.solve(**kw)
    same(r, x0, 'solution after updates of size zero and the starting point')
    same(s.multipliers, full(x0, ix, n), 'stored parameters')
    ctx.tag('beyond 2', np.abs(x0).max() > 2)
    ctx.trivial(not x0.any())
