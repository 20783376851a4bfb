"""C19: the Monte Carlo histogram solver."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, mch
from vh.core import Prop
from vh.oracle import nparams

P = Prop('C19', 'generated samples and constraints for single update rounds; generated models, starting points and settings for whole '
         'solutions; non-trivial: samples with several states, parameters not all zero')


@st.composite
def inner_case(draw):
    n = draw(st.integers(2, 5))
    elem = gen.smooth(.5)
    return dict(n=n, X=draw(gen.sample(n, 2, 20)), th=draw(gen.theta(n, elem=gen.smooth(1.))), d=draw(gen.theta(n, elem=elem)),
                C=draw(st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.9)))), maxd=draw(st.sampled_from([.05, .3, 1.])),
                eta=draw(st.sampled_from([.02, .1, .3, 1.])), norm=draw(st.sampled_from([None, None, .2, 40.])),
                push=draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 14), st.sampled_from([-1., -.8, -.3, .3, .8, 1.])))),
                steps=draw(st.sampled_from([None, 0, 1, 7])))


@st.composite
def jac_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, X=draw(gen.sample(n, 2, 20)), eps=draw(st.sampled_from([None, 1e-4, 1e-2])))


@st.composite
def run_case(draw, boost=True):
    # at zero parameters every flip is accepted, so an even number of them conserves the product of all spins: with two spins
    # that is their correlation, and samples are not spread over it
    n = draw(st.integers(3, 4))
    return dict(n=n, th=draw(gen.theta(n, elem=gen.smooth(.5))), guess=draw(st.one_of(st.none(), gen.theta(n, elem=gen.smooth(.4)), mch.whole(n))),
                N=draw(st.sampled_from([2000, 20000])) if boost else 400, n_iters=draw(st.sampled_from([30, 41])) if boost else 25,
                maxiter=draw(st.integers(1, 8)) if boost else 1, maxd=draw(st.sampled_from([.05, .3, 1.])),
                eta=draw(st.sampled_from([.05, .3, 1.])), tol=draw(st.sampled_from([None, .05, .001])), record=draw(st.booleans()),
                schedule=draw(st.booleans()), seed=draw(gen.seeds), boost=boost, data=draw(st.booleans()),
                again=draw(st.sampled_from([False, False, True])) if boost else False)


@st.composite
def easy_case(draw):
    n = draw(st.integers(3, 4))
    return dict(n=n, th=draw(gen.theta(n, elem=gen.smooth(.5))), seed=draw(gen.seeds))


@P.sub('update_round', inner_case, quick=150, thorough=5000)
def update_round(c, ctx):
    mch.inner(c, ctx)


@P.sub('many_steps', inner_case, quick=30, thorough=800)
def many_steps(c, ctx):
    mch.long_run(c, ctx)


@P.sub('jacobian', jac_case, quick=60, thorough=1000)
def jacobian(c, ctx):
    mch.jacobian(c, ctx)


@P.sub('solve', run_case, quick=22, thorough=600)
def solve(c, ctx):
    mch.run(c, ctx)


@P.sub('solve_python_sampler', lambda: run_case(False), quick=2, thorough=30)
def solve_python_sampler(c, ctx):
    mch.run(c, ctx)


@st.composite
def fixed_case(draw):
    n = draw(st.integers(3, 5))
    return dict(n=n, guess=draw(gen.theta(n, elem=gen.smooth(draw(st.sampled_from([.5, 3., 30.]))))), C=draw(gen.theta(n, elem=gen.smooth(.9))), seed=draw(gen.seeds),
                N=draw(st.sampled_from([100, 1000])), boost=True, maxiter=draw(st.integers(1, 4)), schedule=draw(st.booleans()))


@P.sub('no_update', fixed_case, quick=20, thorough=300)
def no_update(c, ctx):
    mch.fixed(c, ctx)


@P.sub('converges', easy_case, quick=12, thorough=200)
def converges(c, ctx):
    mch.easy(c, ctx)


@P.sub('default_setup', lambda: st.fixed_dictionaries(dict(n=st.integers(3, 5), seed=gen.seeds, sparse=st.just(False))), quick=2, thorough=20)
def default_setup(c, ctx):
    """The solver builds model and functions by itself."""
    from coniii.solvers import MCH
    from vh.oracle import states, monomials, mean_obs, need
    n = c['n']
    X = np.random.RandomState(c['seed']).choice([-1, 1], size=(300, n), p=[.4, .6])
    s = MCH(X, sample_size=2000, iprint=False, rng=np.random.RandomState(c['seed']))
    x, flag, err = s.solve(full_output=True, n_iters=50, burn_in=50, maxiter=40, tol=.08, tolNorm=1.,
                           learn_params_kwargs=dict(maxdlamda=.5, eta=.5))
    if flag == 0:
        need(np.abs(mean_obs(x, n) - monomials(X).mean(0)).max() < .08 + mch.bound(2000, 3.), 'a correlation is off by %g',
             np.abs(mean_obs(x, n) - monomials(X).mean(0)).max())
        ctx.tag('converged')


def big_inner():
    return gen.large(6, 18, rows=300, scales=(.05, .3, 1.), vals=((-1, 1),), maxd=st.sampled_from([.05, .3, 1.]), eta=st.sampled_from([.02, .1, .3, 1.]),
                     norm=st.sampled_from([None, None, .2, 40.]), push=st.sampled_from([None, None, -.8, .3]), steps=st.sampled_from([None, 0, 1, 7]),
                     own=st.booleans(), frac=st.sampled_from([.05, .3, .9]))


def big(c):
    """A case of `inner` at larger size, and a subset of parameters."""
    n = c['n']
    d, X = gen.bulk(c, nparams(n))
    r = np.random.RandomState(c['seed'] % 1013)
    q = dict(c, X=X.tolist(), th=r.uniform(-1, 1, nparams(n)), d=d * .3, C=r.uniform(-.9, .9, nparams(n)) if c['own'] else None,
             push=None if c['push'] is None else (int(r.randint(nparams(n))), c['push']))
    return q, np.flatnonzero(r.rand(nparams(n)) < c['frac'])


@P.sub('update_round_many_spins', big_inner, quick=15, thorough=300)
def update_round_many(c, ctx):
    mch.inner(big(c)[0], ctx)


def larger_case():
    return st.fixed_dictionaries(dict(n=st.integers(6, 9), seed=gen.seeds, scale=st.sampled_from([.1, .2]), rows=st.integers(5, 60), N=st.sampled_from([4000, 20000]),
                                      maxiter=st.integers(1, 5), maxd=st.sampled_from([.05, .3]), eta=st.sampled_from([.05, .3]), tol=st.sampled_from([None, .05, .001]),
                                      record=st.booleans(), schedule=st.booleans(), data=st.booleans(), frac=st.sampled_from([.05, .4, .9])))


def larger(c):
    n, r = c['n'], np.random.RandomState(c['seed'])
    th = r.uniform(-1, 1, nparams(n)) * c['scale']
    guess = None if c['seed'] % 2 else r.uniform(-.1, .1, nparams(n))
    ix = np.flatnonzero(r.rand(nparams(n)) < c['frac'])
    return dict(c, th=th, guess=guess, n_iters=40 + 5 * n, boost=True, again=False), ix if len(ix) else np.array([nparams(n) - 1])


@P.sub('solve_larger', larger_case, quick=5, thorough=100)
def solve_larger(c, ctx):
    """More than six spins."""
    mch.run(larger(c)[0], ctx)
    ctx.tag('n=%d' % c['n'])


@P.sub('converges_larger', larger_case, quick=2, thorough=30)
def converges_larger(c, ctx):
    mch.easy(larger(c)[0], ctx)


@P.sub('jacobian_larger', larger_case, quick=5, thorough=60)
def jacobian_larger(c, ctx):
    r = np.random.RandomState(c['seed'])
    mch.jacobian(dict(n=c['n'], X=r.choice([-1, 1], size=(c['rows'], c['n']), p=[.4, .6]), eps=None), ctx)
