"""C20: the sparse Monte Carlo histogram solver."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, mch
from vh.core import Prop
from vh.oracle import nparams, need, same, close
from checks import c19_mch as dense

P = Prop('C20', 'as C19, with generated subsets of parameters; non-trivial: a proper subset')


def with_ix(strategy):
    @st.composite
    def f(draw):
        c = draw(strategy)
        size = nparams(c['n'])
        c['ix'] = sorted(draw(st.one_of(st.sets(st.integers(0, size - 1), min_size=1, max_size=size),
                                        st.sampled_from([set(range(c['n'])), set(range(c['n'], size)), {0}, {size - 1}]))))
        return c
    return f


def mark(c, ctx):
    ctx.trivial(len(c['ix']) == nparams(c['n']))
    ctx.tag('%d parameters' % len(c['ix']))


@P.sub('update_round', with_ix(dense.inner_case()), quick=150, thorough=5000)
def update_round(c, ctx):
    mch.inner(c, ctx, c['ix'])
    mark(c, ctx)


@P.sub('many_steps', with_ix(dense.inner_case()), quick=30, thorough=800)
def many_steps(c, ctx):
    mch.long_run(c, ctx, c['ix'])
    mark(c, ctx)


@P.sub('solve', with_ix(dense.run_case()), quick=22, thorough=600)
def solve(c, ctx):
    mch.run(c, ctx, c['ix'])
    mark(c, ctx)


@P.sub('solve_python_sampler', with_ix(dense.run_case(False)), quick=2, thorough=30)
def solve_python_sampler(c, ctx):
    mch.run(c, ctx, c['ix'])


@P.sub('no_update', with_ix(dense.fixed_case()), quick=20, thorough=300)
def no_update(c, ctx):
    mch.fixed(c, ctx, c['ix'])
    mark(c, ctx)


@P.sub('converges', with_ix(dense.easy_case()), quick=12, thorough=200)
def converges(c, ctx):
    mch.easy(c, ctx, c['ix'])
    mark(c, ctx)


@P.sub('insertion', lambda: st.integers(2, 9).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), ix=st.lists(st.integers(0, nparams(n) - 1), min_size=1, max_size=20)))), quick=40, thorough=1000)
def insertion(c, ctx):
    n, ix = c['n'], sorted(set(c['ix']))
    s = mch.build(n, c['ix'])
    same(s.parameterIx, ix, 'parameter indices')
    x = np.arange(1., len(ix) + 1)
    same(s.fill_in(x), mch.full(x, ix, n), 'fill_in')
    ctx.trivial(len(ix) == nparams(n))


@P.sub('default_setup', lambda: st.fixed_dictionaries(dict(n=st.integers(3, 5), seed=gen.seeds, k=st.integers(1, 6))), quick=2, thorough=20)
def default_setup(c, ctx):
    from coniii.solvers import SparseMCH
    from vh.oracle import monomials, mean_obs
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    X = rng.choice([-1, 1], size=(300, n), p=[.4, .6])
    ix = np.sort(rng.choice(nparams(n), size=c['k'], replace=False))
    s = SparseMCH(X, parameter_ix=ix, sample_size=2000, iprint=False, rng=np.random.RandomState(c['seed']))
    x, flag, err = s.solve(full_output=True, n_iters=50, burn_in=50, maxiter=40, tol=.08, tolNorm=1.,
                           learn_params_kwargs=dict(maxdlamda=.5, eta=.5))
    need(np.shape(x) == (len(ix),), 'solution has shape %s', np.shape(x))
    if flag == 0:
        d = np.abs(mean_obs(mch.full(x, ix, n), n)[ix] - monomials(X).mean(0)[ix]).max()
        need(d < .08 + mch.bound(2000, 3.), 'a correlation is off by %g', d)
        ctx.tag('converged')


@P.sub('insertion_many_spins', gen.large(10, 45, k=st.integers(1, 200), fill=st.sampled_from([0, -2.])), quick=15, thorough=300)
def insertion_many(c, ctx):
    n = c['n']
    r = np.random.RandomState(c['seed'])
    ix = sorted(set(r.randint(0, nparams(n), c['k']).tolist()))
    s = mch.build(n, ix)
    x = r.randn(len(ix))
    same(s.parameterIx, ix, 'parameter indices')
    want = np.full(nparams(n), float(c['fill']))
    want[ix] = x
    same(s.fill_in(x, c['fill']), want, 'fill_in')


@P.sub('update_round_many_spins', dense.big_inner, quick=15, thorough=300)
def update_round_many(c, ctx):
    q, ix = dense.big(c)
    mch.inner(q, ctx, ix if len(ix) else np.array([0]))
    ctx.tag('more than 50 parameters', len(ix) > 50)


@P.sub('solve_larger', dense.larger_case, quick=5, thorough=100)
def solve_larger(c, ctx):
    """More than six spins."""
    q, ix = dense.larger(c)
    q['th'] = q['th'][:len(ix)]
    mch.run(q, ctx, ix)
    ctx.tag('n=%d' % c['n'])


@P.sub('converges_larger', dense.larger_case, quick=2, thorough=30)
def converges_larger(c, ctx):
    q, ix = dense.larger(c)
    mch.easy(q, ctx, ix)
