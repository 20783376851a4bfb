"""C30: common setup of the solvers and the likelihood estimate."""
import contextlib, io, warnings
import numpy as np
from hypothesis import strategies as st
from vh import gen, models
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, potts_features, raises, boltzmann, mean_obs

P = Prop('C30', 'generated data, kinds of solvers, models and partially observed states; non-trivial: more than one distinct state')
NAMES = ['Enumerate', 'SparseEnumerate', 'MPF', 'MCH', 'SparseMCH', 'Pseudo', 'ClusterExpansion', 'RegularizedMeanField']


class Stub:
    """What the likelihood estimate needs of a model."""
    def __init__(self, sample):
        self.sample = sample
        self.multipliers = np.zeros(nparams(sample.shape[1]))
        self.n = sample.shape[1]


@st.composite
def logp_case(draw):
    n = draw(st.integers(1, 6))
    c = dict(n=n, ref=draw(gen.sample(n, 1, 15)), rep=draw(st.sampled_from([1, 1, 20, 300])),
             X=draw(gen.sample(n, 1, 10, draw(st.sampled_from([(-1, 1), (-1, 0, 1), (-1, 1, 0, 0)])))))
    k = len(c['ref'])
    c['near'] = draw(st.lists(st.tuples(st.integers(0, k - 1), st.lists(st.booleans(), min_size=n, max_size=n)), max_size=6))
    c['one'] = draw(st.booleans())
    c['own'] = draw(st.booleans())
    c['checks'] = draw(st.booleans())
    c['dtype'] = draw(st.sampled_from(['int64', 'int8', 'float64']))
    return c


@P.sub('logp', logp_case, quick=500, thorough=10000)
def logp(c, ctx):
    """Log of the frequency of the observed entries in the sample of the model."""
    from coniii.solvers import Enumerate
    n = c['n']
    R = np.repeat(np.array(c['ref']), c['rep'], axis=0).astype(c.get('refdtype', int))
    rows = [list(x) for x in c['X']] + [[v if keep else 0 for v, keep in zip(c['ref'][i], mask)] for i, mask in c['near']]
    X = np.array(rows).astype(c['dtype'])
    if c['one']:
        X = X[-1]
    data = X if c['own'] and not c['one'] else np.array(c['ref'])
    s = Enumerate(data.astype(int), model=Stub(R), calc_observables=lambda S: monomials(S), iprint=False)
    s.sample = data
    keep, keepR = X.copy(), R.copy()
    with np.errstate(all='ignore'):
        got = s.logp(run_checks=c['checks']) if c['own'] and not c['one'] else s.logp(X, run_checks=c['checks'])
    want = []
    for x in np.atleast_2d(keep):
        hits = sum(1 for r in keepR if all(a == 0 or a == b for a, b in zip(x, r)))
        want.append(np.log(hits / len(keepR)) if hits else -np.inf)
    close(got, np.array(want), 'log likelihood', rtol=1e-12, atol=1e-12)
    same(X, keep, 'the states (not to be changed)')
    same(s.model.sample, keepR, 'the sample of the model (not to be changed)')
    ctx.tag('missing entries', (keep == 0).any())
    ctx.tag('single state', c['one'])
    ctx.tag('never seen', -np.inf in want)
    ctx.trivial(len(np.unique(np.atleast_2d(keep), axis=0)) < 2)


@P.sub('logp_rejects', cases=[dict()])
def logp_rejects(c, ctx):
    from coniii.solvers import Enumerate
    R = states(3, True)
    s = Enumerate(R, model=Stub(R), calc_observables=monomials, iprint=False)
    raises(lambda: s.logp(R.tolist()), 'a list')
    raises(lambda: s.logp(R * 2), 'values other than -1, 0 and 1')


@st.composite
def setup_case(draw):
    n = draw(st.integers(2, 6))
    c = dict(n=n, solver=draw(st.sampled_from(NAMES)), X=draw(gen.sample(n, 1, 10)), given=draw(st.sampled_from(['size', 'data', 'data'])),
             model=draw(st.integers(0, 3)) > 0, obs=draw(st.sampled_from(['package', 'own', 'own'])))
    c['ix'] = sorted(draw(st.sets(st.integers(0, nparams(n) - 1), min_size=1, max_size=3)))
    c['rep'] = draw(st.sampled_from([1, 1, 1, 7, 3000, 30000]))
    c['seed'] = draw(gen.seeds)
    return c


@P.sub('setup', setup_case, quick=50, thorough=1500)
def setup(c, ctx):
    import coniii.solvers as S
    n, X = c['n'], np.repeat(np.array(c['X']), c['rep'], axis=0)
    keep = X.copy()
    kw = {}
    if 'Sparse' in c['solver']:
        kw['parameter_ix'] = np.array(c['ix'])
    mod = models.ising(n) if c['model'] else None
    rng = np.random.RandomState(c['seed'])
    if mod is None:
        kw.update(rng=rng, n_cpus=1)
    else:
        kw['model'] = mod
        mod.set_multipliers(np.linspace(-1, 1, nparams(n)))
    f = (lambda A: monomials(A) * 2.) if c['obs'] == 'own' else models.ising_helpers()[1]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = getattr(S, c['solver'])(n if c['given'] == 'size' else X, calc_observables=f, iprint=False, **kw)
    need(s.n == n, 'size is %r', s.n)
    need(s.calc_observables is f, 'another function for the observables')
    same(X, keep, 'the data (not to be changed)')
    if mod is not None:
        need(s.model is mod, 'another model')
        same(mod.multipliers, np.linspace(-1, 1, nparams(n)), 'parameters of the given model')
    else:
        need(type(s.model).__name__ == 'Ising' and s.model.n == n, 'default model is %r of %r spins', type(s.model).__name__, s.model.n)
        same(s.model.multipliers, np.zeros(nparams(n)), 'parameters of the default model')
        need(s.model.rng is rng, 'the generator given for the default model is not used')
    if c['given'] == 'size':
        need(s.sample is None and s.constraints is None, 'data without being given any')
    else:
        same(s.sample, keep, 'data')
        want = monomials(keep).mean(0) * (2. if c['obs'] == 'own' else 1.)
        close(s.constraints, want[c['ix']] if 'Sparse' in c['solver'] else want, 'constraints', rtol=0, atol=1e-12)
    ctx.tag(c['solver'])
    ctx.tag('default model', mod is None)
    ctx.trivial(c['given'] == 'size' or len(np.unique(keep, axis=0)) < 2)


@P.sub('default_everything', cases=lambda tier: [dict(solver=s, n=n) for s in NAMES for n in ((3,) if tier == 'quick' else (2, 4, 5))])
def default_everything(c, ctx):
    """Nothing but the data given: pairwise model and observables."""
    import coniii.solvers as S
    X = np.random.RandomState(3).choice([-1, 1], size=(20, c['n']))
    kw = dict(parameter_ix=np.array([0, 2])) if 'Sparse' in c['solver'] else {}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = getattr(S, c['solver'])(X, iprint=False, **kw)
        b = getattr(S, c['solver'])(c['n'], **kw)
    want = monomials(X).mean(0)
    close(s.constraints, want[[0, 2]] if kw else want, 'constraints')
    for q in (s, b):
        need(q.n == c['n'] and q.model.n == c['n'], 'sizes %r and %r', q.n, q.model.n)
        close(q.calc_observables(X), monomials(X), 'observables')
        same(q.model.multipliers, np.zeros(nparams(c['n'])), 'parameters')
    raises(lambda: getattr(S, c['solver'])(1, **kw), 'a single spin')
    if c['solver'] in ('MCH', 'SparseMCH', 'ClusterExpansion', 'RegularizedMeanField'):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = getattr(S, c['solver'])(X, sample_size=1100 + c['n'], iprint=False, **kw)
        s.model.generate_sample(1, 0, parallel=False)
        need(s.model.sample.shape == (1100 + c['n'], c['n']), 'samples of shape %s instead of the size given to the solver', s.model.sample.shape)


@st.composite
def fill_case(draw):
    n = draw(st.integers(2, 7))
    k = nparams(n)
    ix = sorted(draw(st.sets(st.integers(0, k - 1), min_size=1, max_size=k)))
    return dict(n=n, ix=ix, x=draw(gen.vec(len(ix), gen.reals(3.))), fill=draw(st.sampled_from([None, 0, 1., -2.5])), solver=draw(st.sampled_from(['SparseEnumerate'] * 12 + ['SparseMCH'])))


@P.sub('fill_in', fill_case, quick=200, thorough=5000)
def fill_in(c, ctx):
    """Values go to their own indices, the rest is filled."""
    import coniii.solvers as S
    n = c['n']
    key = c['solver'], n
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = getattr(S, c['solver'])(n, model=models.ising(n), calc_observables=models.ising_helpers()[1], parameter_ix=np.array(c['ix']), iprint=False)
    want = np.zeros(nparams(n)) + (c['fill'] or 0)
    want[c['ix']] = c['x']
    x = np.array(c['x'])
    got = s.fill_in(x) if c['fill'] is None else s.fill_in(x, fill_value=c['fill'])
    same(got, want, 'filled in')
    same(x, np.array(c['x']), 'the values (not to be changed)')
    ctx.trivial(len(c['ix']) == nparams(n))


@P.sub('logp_many_spins', gen.large(7, 200, rows=60, rep=st.sampled_from([1, 1, 30, 300]), checks=st.booleans(), dtype=st.sampled_from(['int64', 'int8', 'float64'])),
       quick=40, thorough=800)
def logp_many(c, ctx):
    c = dict(c, vals=[-1, 1])
    R = gen.bulk(c, 1)[1]
    r = np.random.RandomState(c['seed'])
    X = R[r.randint(0, len(R), 12)] * (r.rand(12, c['n']) < r.choice([0, .1, .5, 1.], size=(12, 1)))
    if c['sparse']:
        k = r.randint(0, c['n'], 12)
        X[range(12), k] *= -1
    logp(dict(n=c['n'], ref=R, rep=c['rep'], X=X.tolist(), near=[], one=False, own=False, checks=c['checks'], dtype=c['dtype'], refdtype=c['dtype']), ctx)
