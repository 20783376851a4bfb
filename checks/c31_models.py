"""C31: model classes: formats of the parameters, updates and sampling."""
import contextlib, importlib.util, io, itertools, os, sys, warnings
import numpy as np
from hypothesis import strategies as st
from vh import chain, gen, models
from vh.core import Prop
from vh.oracle import (need, close, same, states, nparams, monomials, potts_states, potts_features, boltzmann, potts_boltzmann, subsets,
                       energy, potts_energy, index, potts_index, chi2, raises)

P = Prop('C31', 'generated parameters, formats, histories of updates and sampling options; non-trivial: parameters not all zero')
_C = {}


def M(fast=True):
    """With fast, energy functions are compiled once per process."""
    from coniii import models as m
    if fast and 'patched' not in _C:
        _C['patched'] = 1
        for name, f in (('define_ising_helper_functions', models.ising_helpers), ('define_triplet_helper_functions', models.triplet_helpers),
                        ('define_potts_helper_functions', lambda k=3: models.potts_helpers(k))):
            if hasattr(m, name):
                setattr(m, name, f)
    return m


def potts_equations(n):
    """Equations of the Potts model are not shipped; write them as a user would, but register them from a scratch folder."""
    name = 'coniii.ising_eqn.ising_eqn_%d_potts' % n
    if name in sys.modules:
        return
    from coniii.enumerate_potts import SpecificFieldGenericCouplings
    with contextlib.redirect_stdout(io.StringIO()):
        SpecificFieldGenericCouplings(n, 3).write('potts%d.py' % n)
    spec = importlib.util.spec_from_file_location(name, os.path.abspath('potts%d.py' % n))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules[name] = m


class Ref:
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.S = potts_states(n, 3) if kind == 'potts' else states(n, True)
        self.F = potts_features(self.S, 3) if kind == 'potts' else monomials(self.S, 3 if kind == 'triplet' else 2)
        self.size = self.F.shape[1]

    def p(self, th):
        a = self.F.dot(np.asarray(th, float))
        w = np.exp(a - a.max())
        return w / w.sum()

    def obs(self, th):
        return self.p(th).dot(self.F)

    def split(self, th):
        n = self.n
        cut = [3 * n] if self.kind == 'potts' else [n] if self.kind == 'ising' else [n, n + n * (n - 1) // 2]
        return np.split(np.asarray(th, float), cut)

    def index(self, X):
        return potts_index(X, 3) if self.kind == 'potts' else index(X)


def matrix(th, n, low):
    A = np.diag(th[:n])
    for q, (i, j) in enumerate(subsets(n, 2)):
        A[i, j] = A[j, i] = th[n + q]
    return A


FORMATS = dict(ising=['vector', 'list', 'matrix', 'matrix in columns', 'size', 'tuple'], triplet=['list'], potts=['vector', 'list'])


def given(ref, th, fmt):
    th = np.array(th, float)
    if fmt == 'vector':
        return th
    if fmt == 'list':
        return [np.array(v) for v in ref.split(th)]
    if fmt == 'tuple':
        return tuple(np.array(v) for v in ref.split(th))
    if fmt == 'matrix':
        return matrix(th, ref.n, False)
    if fmt == 'matrix in columns':
        return np.asfortranarray(matrix(th, ref.n, False))
    return ref.n


def make(ref, th, fmt, **kw):
    if ref.kind == 'potts' and ref.n in (3, 4):
        potts_equations(ref.n)
    cls = dict(ising='Ising', triplet='Triplet', potts='Potts3')[ref.kind]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return getattr(M(), cls)(given(ref, th, fmt), **kw)


def exact_known(ref):
    return ref.n <= 9 and (ref.kind == 'ising' or (ref.kind == 'triplet' and ref.n == 5) or (ref.kind == 'potts' and ref.n in (3, 4)))


def agrees(m, ref, th, what):
    close(m.multipliers, th, what + ': parameters', rtol=0, atol=0)
    need(m.n == ref.n, '%s: size %r', what, m.n)
    if exact_known(ref):
        close(m.calc_p(), ref.p(th), what + ': probabilities', rtol=1e-8, atol=1e-280)
        close(m.calc_observables(), ref.obs(th), what + ': observables', rtol=0, atol=1e-9)
    elif ref.kind != 'potts':
        need(m.calc_p is None and m.calc_observables is None, '%s: exact functions without equations', what)
    X = ref.S[::max(1, len(ref.S) // 7)].astype(np.int64)
    close(m.calc_e(X, np.asarray(th, float)), potts_energy(X, th, 3) if ref.kind == 'potts' else energy(X, th, 3 if ref.kind == 'triplet' else 2), what + ': energies')


@st.composite
def model_case(draw, kinds=('ising', 'ising', 'ising', 'triplet', 'potts'), hi=9, lo=2):
    kind = draw(st.sampled_from(kinds))
    n = {'ising': st.one_of(st.integers(lo, hi), st.integers(lo, max(lo, 4))), 'triplet': st.sampled_from([5, 5, 5, 3, 4, 6]), 'potts': st.sampled_from([3, 3, 4])}[kind]
    n = draw(n)
    size = 3 * n + n * (n - 1) // 2 if kind == 'potts' else nparams(n, 3 if kind == 'triplet' else 2)
    s = draw(st.sampled_from([.3, 1., 4.]))
    fmt = draw(st.sampled_from(FORMATS[kind]))
    th = [0.] * size if fmt == 'size' else draw(gen.vec(size, gen.reals(s)))
    return dict(kind=kind, n=n, th=th, fmt=fmt)


@P.sub('formats', lambda: model_case(hi=11), quick=200, thorough=4000)
def formats(c, ctx):
    ref = Ref(c['kind'], c['n'])
    m = make(ref, c['th'], c['fmt'])
    g = given(ref, c['th'], c['fmt'])
    agrees(m, ref, np.array(c['th']), c['fmt'])
    if c['fmt'].startswith('matrix'):
        g2 = given(ref, c['th'], c['fmt'])
        make_from = M().Ising(g2)
        same(g2, g, 'the given matrix (not to be changed)')
    ctx.tag('%s %s' % (c['kind'], c['fmt']))
    ctx.tag('n=%d' % c['n'])
    ctx.trivial(not np.any(c['th']))


@P.sub('own_energy_function', cases=[dict(kind=k, n=n, fmt=f) for k, n, f in (('ising', 2, 'size'), ('ising', 3, 'matrix'), ('ising', 4, 'vector'),
                                                                             ('triplet', 5, 'list'), ('potts', 3, 'list'))])
def own_energy_function(c, ctx):
    """As `formats`, without replacing anything in the package."""
    need('patched' not in _C, 'already replaced')
    ref = Ref(c['kind'], c['n'])
    _C['patched'] = 1
    th = np.zeros(ref.size) if c['fmt'] == 'size' else np.linspace(-.7, .8, ref.size)
    try:
        agrees(make(ref, th, c['fmt']), ref, th, c['fmt'])
    finally:
        del _C['patched']


@P.sub('rejects', cases=[dict(n=n) for n in (2, 3, 4, 5)])
def rejects(c, ctx):
    n, m = c['n'], M()
    k = n * (n - 1) // 2
    for bad in (n + k + 1, n + k + 2 if n > 2 else 5, n + k - 1 if n > 2 else 4):
        if bad in (1, 3, 6, 10, 15, 21, 28):
            continue
        raises(lambda: m.Ising(np.zeros(bad)), 'vector of %d parameters' % bad)
    raises(lambda: m.Ising(1), 'a single spin')
    raises(lambda: m.Ising([np.zeros(n), np.zeros(k + 1)]), 'too many couplings')
    raises(lambda: m.Ising([np.zeros(n + 1), np.zeros(k)]) if n > 0 else None, 'too many fields')
    raises(lambda: m.Ising('abc'), 'text')
    raises(lambda: m.Triplet([np.zeros(n), np.zeros(k + 1), np.zeros(n * (n - 1) * (n - 2) // 6)]), 'too many couplings')
    raises(lambda: m.Triplet([np.zeros(n), np.zeros(k), np.zeros(n * (n - 1) * (n - 2) // 6 + 1)]), 'too many triplets')
    raises(lambda: m.Potts3([np.zeros(3 * n), np.zeros(k + 1)]), 'too many couplings')
    raises(lambda: m.Potts3([np.zeros(3 * n + 1), np.zeros(k)]), 'fields not in threes')
    raises(lambda: m.Potts3(np.zeros(3 * n + k + 1)), 'vector of the wrong size')
    raises(lambda: m.Ising(np.zeros(n + k)).setup_sampler('unheard of'), 'unknown sampler')


@st.composite
def history_case(draw, kinds=('ising', 'ising', 'triplet', 'potts'), lo=2, hi=5):
    c = draw(model_case(kinds, hi, lo))
    size = len(c['th'])
    vec = gen.vec(size, gen.reals(draw(st.sampled_from([.3, 2.]))))
    op = st.one_of(st.fixed_dictionaries(dict(op=st.just('set'), th=vec)),
                   st.fixed_dictionaries(dict(op=st.just('nudge'), at=st.integers(0, size - 1), by=st.sampled_from([1e-2, -1e-3, 1e-4, -1e-6]))),
                   st.fixed_dictionaries(dict(op=st.just('ask'), th=vec)),
                   st.fixed_dictionaries(dict(op=st.just('read'))),
                   st.fixed_dictionaries(dict(op=st.just('sample'), parallel=st.booleans(), th=st.one_of(st.none(), vec), N=st.integers(1, 9))),
                   st.fixed_dictionaries(dict(op=st.just('rng'), seed=gen.seeds)))
    c['ops'] = draw(st.lists(op, min_size=2, max_size=6))
    c['seed'] = draw(gen.seeds)
    return c


def parallel_ok(kind, N):
    """The parallel Potts sampler asks for more samples than processes."""
    return kind == 'ising' or (kind == 'potts' and N > 2)


def sampler_kwargs(ref):
    return dict(iprint=False) if ref.kind != 'potts' else dict(n_cpus=2)


@P.sub('histories', history_case, quick=60, thorough=1200)
def histories(c, ctx):
    """Two equal models driven by equal calls stay equal, and each follows its latest parameters."""
    ref = Ref(c['kind'], c['n'])
    ms = [make(ref, c['th'], c['fmt'], rng=np.random.RandomState(c['seed']), n_cpus=1) for _ in range(2)]
    now = np.array(c['th'], float)
    for m in ms:
        m.setup_sampler(sample_size=7, sampler_kwargs=sampler_kwargs(ref))
    for o in c['ops']:
        if o['op'] == 'set':
            now = np.array(o['th'])
            for m in ms:
                m.set_multipliers(now.copy())
        elif o['op'] == 'nudge':
            now = now.copy()
            now[o['at']] += o['by']
            for m in ms:
                m.set_multipliers(now.copy())
        elif o['op'] == 'ask' and exact_known(ref):
            t = np.array(o['th'])
            for m in ms:
                close(m.calc_p(t), ref.p(t), 'probabilities of other parameters', rtol=1e-8, atol=1e-280)
                close(m.calc_observables(t), ref.obs(t), 'observables of other parameters', rtol=0, atol=1e-9)
        elif o['op'] == 'rng':
            ms[1].rng.random_sample(1 + o['seed'] % 5)      # a different past
            for m in ms:
                m.set_rng(np.random.RandomState(o['seed']))
        elif o['op'] == 'sample':
            kw = dict(parallel=o['parallel'] and parallel_ok(ref.kind, o['N']))
            if o['th'] is not None:
                kw['multipliers'] = np.array(o['th'])
            for m in ms:
                m.generate_sample(5, 3, sample_size=o['N'], **kw)
                X = np.asarray(m.sample)
                need(X.shape == (o['N'], ref.n), 'sample of shape %s', X.shape)
                need(set(np.unique(X)) <= ({0, 1, 2} if ref.kind == 'potts' else {-1, 1}), 'values %s', np.unique(X))
            same(ms[0].sample, ms[1].sample, 'samples of two equal models')
        for m in ms:
            agrees(m, ref, now, 'after ' + o['op'])
    if c['ops'][-1]['op'] == 'rng':
        for m in ms:
            m.generate_sample(5, 3, sample_size=6, parallel=False)
        same(ms[0].sample, ms[1].sample, 'samples of two equal models given equal generators')
        for m in ms:
            m.setup_sampler(sample_size=7, sampler_kwargs=sampler_kwargs(ref))
            m.generate_sample(5, 3, sample_size=6, parallel=False)
        same(ms[0].sample, ms[1].sample, 'samples of two equal models given equal generators, after another setup')
    # a generator given after a sample is used for the next one
    seen = []
    for m in ms:
        m.set_rng(np.random.RandomState(c['seed'] ^ 78))
        m.generate_sample(1, 0, multipliers=np.zeros(len(now)), sample_size=2 + (m is ms[1] and ref.kind == 'ising'), parallel=False)
        if m is ms[1]:
            m.rng.random_sample(3)
        m.set_rng(np.random.RandomState(c['seed'] ^ 77))
        m.generate_sample(1, 0, multipliers=np.zeros(len(now)), sample_size=30, parallel=False)
        seen.append(np.array(m.sample))
    same(seen[0], seen[1], 'samples of two models given equal generators after other samples')
    for m in ms:
        m.generate_sample(1, 0, parallel=False)
        need(np.shape(m.sample) == (7, ref.n), 'default sample size not used: %s', np.shape(m.sample))
    ctx.tag(c['kind'])
    ctx.trivial(not np.any(c['th']) and not any(o['op'] in ('set', 'nudge') for o in c['ops']))


@P.sub('histories_larger', lambda: history_case(('ising',), 6, 12), quick=16, thorough=400)
def histories_larger(c, ctx):
    histories(c, ctx)


@st.composite
def strong_case(draw):
    """Parameters so strong that the states can be foretold."""
    c = draw(model_case(('ising', 'ising', 'triplet', 'potts', 'potts'), 5))
    n, kind = c['n'], c['kind']
    c['stages'] = []
    for q in range(draw(st.integers(1, 4))):
        pat = draw(st.lists(st.integers(0, 2 if kind == 'potts' else 1), min_size=n, max_size=n))
        c['stages'].append(dict(pat=pat, via=draw(st.sampled_from(['init', 'set', 'keyword'] if q == 0 else ['set', 'set', 'keyword'])),
                                parallel=draw(st.booleans()) and kind != 'triplet', N=draw(st.integers(1, 40)), default_size=draw(st.booleans()),
                                sysit=draw(st.booleans()), which=draw(st.integers(0, n - 1)), mode=draw(st.sampled_from(['fields', 'pairs', 'triple']))))
    c['seed'] = draw(gen.seeds)
    return c


def strong(ref, g):
    n, kind, pat = ref.n, ref.kind, g['pat']
    th = np.zeros(ref.size)
    if kind == 'potts':
        for i in range(n):
            th[pat[i] * n + i] = 40.
        check = lambda X: (X == np.array(pat)).all()
        if g['mode'] == 'pairs':            # spin 0 held, the others in equal or different states
            th[:] = 0
            th[pat[0] * n] = 40. * n        # outweighs the couplings, so that spin 0 is the first to settle
            for q, (i, j) in enumerate(subsets(n, 2)):
                if i == 0:
                    th[3 * n + q] = 40. if pat[j] == pat[0] else -40.
            check = lambda X: (X[:, 0] == pat[0]).all() and all(((X[:, j] == X[:, 0]) == (pat[j] == pat[0])).all() for j in range(1, n))
    else:
        s = 2 * np.array(pat) - 1
        if g['mode'] == 'fields':
            th[:n] = 40. * s
        else:
            th[g['which']] = 20. * (n + 1) * s[g['which']]      # outweighs the couplings: the first to settle
            for q, (i, j) in enumerate(subsets(n, 2)):
                if g['which'] in (i, j):
                    th[n + q] = 20. * s[i] * s[j]
        check = lambda X: (X == s).all()
        if kind == 'triplet' and g['mode'] == 'triple':
            th[:] = 0
            for q, (i, j, k) in enumerate(subsets(n, 3)):
                if (i, j) == (0, 1):
                    th[nparams(n) + q] = 20. * s[i] * s[j] * s[k]
            th[0], th[1] = 60. * s[0] * n, 60. * s[1] * n
    return th, check


@P.sub('strong_parameters', strong_case, quick=100, thorough=2500)
def strong_parameters(c, ctx):
    """Each sample follows the parameters in force when it is drawn."""
    n, kind = c['n'], c['kind']
    ref = Ref(kind, n)
    fmt = 'list' if c['fmt'] == 'size' else c['fmt']
    g = c['stages'][0]
    th, _ = strong(ref, g)
    m = make(ref, th if g['via'] == 'init' else -th, fmt, rng=np.random.RandomState(c['seed']), n_cpus=2)
    size = 5
    m.setup_sampler(sample_size=size, sampler_kwargs=sampler_kwargs(ref))
    for g in c['stages']:
        th, check = strong(ref, g)
        if g['via'] == 'set':
            m.set_multipliers(th)
        kw = dict(multipliers=th) if g['via'] == 'keyword' else {}
        N = size if g['default_size'] else g['N']
        if not g['default_size']:
            kw['sample_size'] = N
        m.generate_sample(20 * n, 400 * n, parallel=g['parallel'] and parallel_ok(kind, N), generate_kwargs=dict(systematic_iter=g['sysit']), **kw)
        X = np.asarray(m.sample)
        need(X.shape == (N, n), 'sample of shape %s', X.shape)
        need(check(X), 'sample %s of strong parameters %s that ask for %s', X[:3].tolist(), th.tolist(), g['pat'])
        ctx.tag('%s %s %s' % (kind, g['via'], 'parallel' if g['parallel'] else 'sequential'))
    ctx.tag('several samples', len(c['stages']) > 1)


@st.composite
def dist_case(draw):
    c = draw(model_case(('ising', 'ising', 'potts', 'triplet'), 4))
    n, kind = (3, c['kind'])
    size = {'ising': 6, 'triplet': 7, 'potts': 12}[kind]
    fmt = draw(st.sampled_from(FORMATS[kind]))
    c.update(n=3, fmt='vector' if fmt == 'size' else fmt, th=draw(gen.vec(size, st.builds(lambda a, b: a if b else -a, st.floats(.2, .9), st.booleans()))), seed=draw(gen.seeds),
             parallel=draw(st.booleans()) and kind != 'triplet')
    return c


@P.sub('distribution', dist_case, quick=12, thorough=200)
def distribution(c, ctx):
    """Samples drawn through a model have its distribution."""
    ref = Ref(c['kind'], 3)
    m = make(ref, c['th'], c['fmt'], rng=np.random.RandomState(c['seed']), n_cpus=2)
    m.setup_sampler(sample_size=1500, sampler_kwargs=sampler_kwargs(ref))
    m.generate_sample(90, 300, parallel=c['parallel'])
    chi2(np.bincount(ref.index(m.sample), minlength=len(ref.S)), ref.p(c['th']), 'sampled states')
    ctx.tag(c['kind'])


fresh_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'ising', 'potts']), n=st.sampled_from([200, 230]), seed=gen.seeds,
                                        rng=st.booleans(), ops=st.lists(st.sampled_from(['par', 'seq', 'theta', 'other', 'size', 'set_rng']),
                                                                        min_size=2, max_size=4)))


@P.sub('fresh_draws', fresh_case, quick=8, thorough=150)
def fresh_draws(case, ctx):
    """Successive samples of a model (or of several models) of independent spins resemble each other only by chance."""
    n, k = case['n'], 2 if case['kind'] == 'ising' else 3
    m = M()
    r = np.random.RandomState(case['seed'] % 2**31)

    def new():
        h = r.uniform(.2, .6, (k - 1, n)) * r.choice([-1, 1], size=(k - 1, n))
        return h if k == 2 else np.vstack([h, np.zeros((1, n))])
    full = lambda h: np.concatenate([h.ravel(), np.zeros(n * (n - 1) // 2)])
    gens = [np.random.RandomState(case['seed'] % 2**31 + i) for i in range(2)]

    def build(i):
        kw = dict(rng=gens[i]) if case['rng'] else {}
        x = m.Ising(full(h), **kw) if k == 2 else m.Potts3([h.ravel(), np.zeros(n * (n - 1) // 2)], **kw)
        x.setup_sampler('metropolis', sample_size=24, sampler_kwargs=dict(iprint=False) if k == 2 else dict(n_cpus=3))
        return x
    h = new()
    models_ = [build(0), build(1)]
    i, rows, means, where = 0, [], [], []
    for t, o in enumerate(case['ops']):
        kw = dict(n_iters=16 * n, burn_in=16 * n)
        if o == 'other':
            i = 1 - i
        elif o == 'theta':
            h = new()
            for x in models_:
                x.set_multipliers(full(h))
        elif o == 'set_rng':
            models_[i].set_rng(np.random.RandomState(case['seed'] % 2**31 + 7 + t))
        models_[i].generate_sample(sample_size=16 if o == 'size' else None, parallel=o != 'seq', **kw)
        X = np.asarray(models_[i].sample)
        if k == 2:
            p, one = np.array([np.exp(h[0]), np.exp(-h[0])]), np.array([X == 1, X == -1])
        else:
            p, one = np.exp(h), np.array([X == a for a in range(3)])
        p = p / p.sum(0)
        rows += list(one.transpose(1, 0, 2))
        means += [p] * len(X)
        where += ['%s (call %d) state %d' % (o, t, j) for j in range(len(X))]
    chain.unrelated(rows, means, where)
    ctx.tag(case['kind'])
    ctx.tag('default generator', not case['rng'])
