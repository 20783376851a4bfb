"""C13: sequences of sampling calls."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, chain
from vh.core import Prop
from vh.oracle import (need, close, same, states, energy, index, nparams, chi2, boltzmann, potts_states, potts_energy, potts_index,
                       softmax)

P = Prop('C13', 'generated sequences of calls (sequential, parallel, conditional, new parameters; with zero or default burn-in) on all '
         'samplers; non-trivial: at least two calls of different kinds')
_F = {}


def calc(kind):
    if kind not in _F:
        from coniii import utils
        _F[kind] = utils.define_ising_helper_functions()[0] if kind == 'ising' else utils.define_potts_helper_functions(3)[0]
    return _F[kind]


def build(case, th=None):
    from coniii.samplers import Metropolis, Potts3
    th = np.array(case['th'] if th is None else th, float)
    rng = np.random.RandomState(case['seed'])
    if case['kind'] == 'ising':
        return Metropolis(case['n'], th, calc_e=calc('ising'), rng=rng, boost=case['boost'], iprint=False)
    return Potts3(case['n'], th, calc_e=calc('potts'), rng=rng, boost=case['boost'], n_cpus=3)


def model(case, th):
    n = case['n']
    if case['kind'] == 'ising':
        return states(n, True), energy(states(n, True), th), 2, index
    return potts_states(n, 3), potts_energy(potts_states(n, 3), th, 3), 3, lambda X: potts_index(X, 3)


def op(kind, boost, parallel):
    ops = ['seq', 'seq', 'seq', 'theta', 'zero']
    if parallel:
        ops += ['par', 'par']
    if kind == 'ising':
        ops += ['cond', 'cond']
        if boost and parallel:
            ops += ['condpar']
    return st.fixed_dictionaries(dict(op=st.sampled_from(ops), N=st.integers(1, 25), n_iters=st.integers(0, 6),
                                      burn=st.sampled_from([None, 0, 0, 1, 4]), sysit=st.booleans(),
                                      fix=st.lists(st.sampled_from([-1, 1, 0]), min_size=5, max_size=5),
                                      scale=st.sampled_from([-1., .5, 1.5])))


def seq_case(parallel):
    @st.composite
    def c(draw):
        kind = draw(st.sampled_from(['ising', 'ising', 'potts']))
        boost = draw(st.booleans())
        n = draw(st.integers(2, 5 if kind == 'ising' else 4))
        size = nparams(n) if kind == 'ising' else 3 * n + n * (n - 1) // 2
        return dict(kind=kind, boost=boost, n=n, th=draw(gen.vec(size, gen.smooth(1.5))), seed=draw(gen.seeds),
                    ops=draw(st.lists(op(kind, boost, parallel), min_size=2, max_size=4 if parallel else 8)))
    return c


def call(s, o, case):
    """Returns (sample, energies or None)"""
    kw = dict(n_iters=o['n_iters'])
    if o['op'] in ('cond', 'condpar'):
        fx = [(i, v) for i, v in enumerate(o['fix'][:case['n']]) if v]
        if not fx:
            fx = [(0, 1)]
        if len(fx) == case['n']:
            fx = fx[1:]
        s.generate_cond_sample(o['N'], fx, burn_in=o['burn'] or 0, n_iters=o['n_iters'], systematic_iter=o['sysit'],
                               parallel=o['op'] == 'condpar')
        for i, v in fx:
            need(bool((s.sample[:, i] == v).all()), 'conditional sample: spin %d is not at %d', i, v)
        return
    if o['burn'] is not None:
        kw['burn_in'] = o['burn']
    if o['sysit']:
        kw['systematic_iter'] = True
    N = o['N']
    if o['op'] == 'par':
        if case['kind'] == 'potts' and case['boost']:
            N += 3
        s.generate_sample_parallel(N, **kw)
    else:
        s.generate_sample(N, **kw)


def run(case, ctx):
    a, b = build(case), build(case)
    th = np.array(case['th'], float)
    last = None
    for o in case['ops']:
        if o['op'] == 'theta':
            th = th * o['scale'] + .05
            a.update_parameters(th.copy())
            b.update_parameters(th.copy())
            continue
        S, E, k, ix = model(case, th)
        if o['op'] == 'zero':
            if case['boost'] or last != 'seq':
                continue
            prev = a.sample[-1].copy()
            for s in (a, b):
                s.generate_sample(2, n_iters=0, burn_in=0)
            same(a.sample, np.array([prev, prev]), 'sample without any step after a sequential sample')
            continue
        for s in (a, b):
            call(s, o, case)
        N = o['N'] + (3 if o['op'] == 'par' and case['kind'] == 'potts' and case['boost'] else 0)
        X = np.asarray(a.sample)
        need(X.shape == (N, case['n']), '%s: sample has shape %s instead of %s', o['op'], X.shape, (N, case['n']))
        need(bool(np.isin(X, S).all()), '%s: sample has entries %s', o['op'], np.unique(X)[:6])
        need(np.issubdtype(X.dtype, np.integer), '%s: sample has type %s', o['op'], X.dtype)
        close(a.calc_e(a.sample, th), E[ix(X)], '%s: energy function of the sampler on its sample' % o['op'], rtol=0, atol=1e-8)
        same(X, b.sample, 'samples of two equal samplers (%s)' % o['op'])
        if not case['boost'] and o['op'] in ('seq', 'cond'):
            close(np.ravel(a.E), E[ix(X)], '%s: energies' % o['op'], rtol=0, atol=1e-8)
        last = o['op']
        ctx.tag('%s%s' % (o['op'], ' compiled' if case['boost'] else ''))
    S, E, k, ix = model(case, th)
    N = 6000 if case['boost'] else 700
    a.generate_sample(N, n_iters=2)
    chain.check(ix(a.sample), chain.site_kernels(E, case['n'], k), 2, False, 'sample after the calls')
    ctx.trivial(len(set(o['op'] for o in case['ops'])) < 2)


@P.sub('sequential', seq_case(False), quick=250, thorough=8000)
def sequential(case, ctx):
    run(case, ctx)


@P.sub('with_parallel', seq_case(True), quick=25, thorough=400)
def with_parallel(case, ctx):
    run(case, ctx)


@P.sub('separate_samplers', seq_case(False), quick=60, thorough=1500)
def separate_samplers(case, ctx):
    """Updating and using one sampler leaves another one built from the same parameters alone, and the given arrays too."""
    from coniii.samplers import Metropolis, Potts3
    th0 = np.array(case['th'], float)
    keep = th0.copy()

    def make(th):
        rng = np.random.RandomState(case['seed'])
        if case['kind'] == 'ising':
            return Metropolis(case['n'], th, calc_e=calc('ising'), rng=rng, boost=case['boost'], iprint=False)
        return Potts3(case['n'], th, calc_e=calc('potts'), rng=rng, boost=case['boost'], n_cpus=3)
    a, b, alone = make(th0), make(th0), make(keep.copy())
    th = keep.copy()
    updates = 0
    for o in case['ops']:
        if o['op'] == 'theta':
            th = th * o['scale'] - .3
            new = th.copy()
            a.update_parameters(new)
            same(new, th, 'parameters passed to update_parameters')
            new[:] = 7.  # the caller is free to use its array
            updates += 1
        elif o['op'] in ('seq', 'cond'):
            call(a, o, case)
        same(th0, keep, 'array from which the samplers were built (%s)' % o['op'])
    for s in (b, alone):
        s.generate_sample(40, n_iters=2, burn_in=3)
    same(b.sample, alone.sample, 'sample of a sampler that shares its parameters with another one')
    c = make(th)
    a.rng.seed(5)
    c.rng.seed(5)
    X = chain_start(case)
    for s in (a, c):
        s.generate_sample(40, n_iters=2, burn_in=3, **X)
    same(a.sample, c.sample, 'samples of the sampler with updated parameters and of a new one')
    ctx.tag('%s%s' % (case['kind'], ' compiled' if case['boost'] else ''))
    ctx.trivial(not updates)


def chain_start(case):
    if case['boost']:
        return {}
    rng = np.random.RandomState(case['seed'])
    return dict(initial_sample=rng.choice([-1, 1], size=(1, case['n'])) if case['kind'] == 'ising' else rng.randint(0, 3, size=(1, case['n'])))


@st.composite
def par_case(draw):
    kind = draw(st.sampled_from(['ising', 'ising', 'potts']))
    n = draw(st.integers(2, 3))
    size = nparams(n) if kind == 'ising' else 3 * n + n * (n - 1) // 2
    return dict(kind=kind, boost=draw(st.booleans()), n=n, th=draw(gen.vec(size, gen.smooth(1.))), seed=draw(gen.seeds),
                sysit=draw(st.booleans()))


@P.sub('parallel_distribution', par_case, quick=16, thorough=250)
def parallel_distribution(case, ctx):
    """Parallel samples follow the Boltzmann distribution of the latest parameters."""
    th = np.array(case['th'], float)
    s = build(case, th * 0)
    s.update_parameters(th)
    S, E, k, ix = model(case, th)
    Ks = chain.site_kernels(E, case['n'], k)
    p = softmax(-E)
    it = 2 * case['n']
    f = (lambda m: chain.sweep(Ks, 0, m)) if case['sysit'] else (lambda m: chain.random_scan(Ks, m))
    while it < 300 and max(np.abs(f(it) - p).max(), np.abs(f(it + 1) - p).max()) > 1e-5:
        it += case['n']
    if it >= 300:
        ctx.trivial()
        return
    N = 20000 if case['boost'] else 2500
    s.generate_sample_parallel(N, n_iters=it, burn_in=it, systematic_iter=case['sysit'])
    need(s.sample.shape == (N, case['n']), 'sample has shape %s', s.sample.shape)
    chi2(np.bincount(ix(s.sample), minlength=len(p)), p, 'parallel sample')
    ctx.tag(case['kind'] + (' compiled' if case['boost'] else ''))


@P.sub('parallel_initial', st.fixed_dictionaries(dict(n=st.integers(2, 4), seed=gen.seeds, steps=st.integers(0, 2))), quick=6, thorough=60)
def parallel_initial(case, ctx):
    """Given replicas are the starting points of a parallel sample."""
    import multiprocess as mp
    n, R = case['n'], mp.cpu_count()
    rng = np.random.RandomState(case['seed'])
    c = dict(case, kind='ising', boost=False, th=[0.] * nparams(n))
    s = build(c)
    X0 = rng.choice([-1, 1], size=(R, n))
    keep = X0.copy()
    s.generate_sample_parallel(2 * R, n_iters=0, burn_in=case['steps'], initial_sample=X0)
    same(X0, keep, 'the given replicas')
    # without fields every step flips a spin
    d = (s.sample[::2] != keep).sum(1)
    need(bool((d % 2 == case['steps'] % 2).all() and (d <= case['steps']).all()), 'after %d flips the replicas differ from their '
         'start in %s spins', case['steps'], d.tolist())
    same(s.sample[::2], s.sample[1::2], 'samples without steps between them')


@st.composite
def front_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, th=draw(gen.theta(n, 1.5, elem=gen.smooth(1.5))), seed=draw(gen.seeds), form=draw(st.sampled_from(['array', 'pair', 'list', 'pair of lists'])),
                N=draw(st.integers(1, 30)), parallel=draw(st.booleans()), big=draw(st.booleans()))


@P.sub('sample_ising', front_case, quick=9, thorough=200)
def sample_ising_(case, ctx):
    from coniii.samplers import sample_ising
    n, th = case['n'], case['th']
    m = dict(array=np.array(th), pair=(np.array(th[:n]), np.array(th[n:])), list=list(th))
    m['pair of lists'] = [list(th[:n]), list(th[n:])]
    m = m[case['form']]
    par = case['parallel']
    X = sample_ising(m, case['N'], seed=case['seed'], parallel=par, generate_sample_kw=dict(n_iters=20))
    need(X.shape == (case['N'], n) and bool(np.isin(X, (-1, 1)).all()), 'sample has shape %s', X.shape)
    Y = sample_ising(m, case['N'], seed=case['seed'], parallel=par, generate_sample_kw=dict(n_iters=20))
    same(X, Y, 'two samples with the same seed')
    if not par:
        E = energy(states(n, True), np.array(th))
        X = sample_ising(m, 6000, seed=case['seed'], parallel=False, generate_sample_kw=dict(n_iters=3, burn_in=0))
        chain.check(index(X), chain.site_kernels(E, n, 2), 3, False, 'sample_ising')
        if case['big']:
            X = sample_ising(m, 50, seed=None, parallel=False)
            need(X.shape == (50, n), 'shape %s', X.shape)
    else:
        p = boltzmann(np.array(th), n)
        Ks = chain.site_kernels(energy(states(n, True), np.array(th)), n, 2)
        if np.abs(chain.random_scan(Ks, 200) - p).max() < 1e-5:
            X = sample_ising(m, 8000, seed=case['seed'], generate_sample_kw=dict(n_iters=200))
            chi2(np.bincount(index(X), minlength=len(p)), p, 'parallel sample_ising')
    # the given options stay as they are, and earlier calls for other sizes have no effect on later ones
    kw = dict(n_iters=5, burn_in=2)
    need(sample_ising(m, 9, parallel=par, generate_sample_kw=kw).shape == (9, n) and kw == dict(n_iters=5, burn_in=2), 'options became %s', kw)
    none = {}
    need(sample_ising(m, 9, parallel=par, generate_sample_kw=none).shape == (9, n) and none == {}, 'options became %s', none)
    sample_ising(m, 3, parallel=par)
    big = 75 if case['big'] else 24 + case['seed'] % 30
    pat = np.random.RandomState(case['seed']).choice([-1, 1], size=big)
    m = 50. * pat, np.zeros(big * (big - 1) // 2)
    m = dict(array=np.concatenate(m), pair=m, list=list(np.concatenate(m)))[case['form'].split(' of ')[0]]
    X = sample_ising(m, 40, seed=case['seed'], parallel=par)
    need(X.shape == (40, big) and bool((X == pat).all()), '%d spins in strong fields are not in equilibrium after the default number of steps', big)
    from vh.oracle import raises
    raises(lambda: sample_ising(list(th) + [0.1] * (n if n > 1 else 2), 5, parallel=False), 'a vector of impossible length')
    ctx.tag(case['form'])
    ctx.trivial(not np.any(th))


@P.sub('many_spins', gen.large(6, 40, kind=st.sampled_from(['ising', 'ising', 'potts']), boost=st.booleans(), burn=st.sampled_from([0, 1, 30]),
                               sysit=st.booleans(), ops=st.lists(st.sampled_from(['seq', 'theta', 'cond', 'empty', 'par']), min_size=1, max_size=4),
                               scales=(.3, 1., 4.)), quick=24, thorough=400)
def many_spins(case, ctx):
    """Calls on systems too large to enumerate; every step of the last sample is checked against the latest parameters."""
    k = 2 if case['kind'] == 'ising' else 3
    n, th, h, J = chain.large_model(case, k)
    r = np.random.RandomState(case['seed'])
    a, b = (build(dict(case, th=th)) for _ in range(2))
    for op in case['ops'] + ['theta']:
        o = dict(op=op, N=7, n_iters=2, burn=case['burn'], sysit=case['sysit'], fix=r.choice([-1, 1, 0], size=n).tolist())
        if op == 'theta':
            c2 = dict(case, seed=int(r.randint(1 << 30)))
            n, th, h, J = chain.large_model(c2, k)
        for s in (a, b):
            if op == 'theta':
                s.update_parameters(th.copy())
            elif op in ('seq', 'par') or op == 'cond' and k == 2:
                call(s, o, case)
        if getattr(a, 'sample', None) is not None:
            same(a.sample, b.sample, 'samples of two equal samplers (%s)' % op)
            X = np.asarray(a.sample)
            need(bool(np.isin(X, (-1, 1) if k == 2 else (0, 1, 2)).all()), 'sample has entries %s', np.unique(X)[:6])
            E = energy(X, th) if k == 2 else potts_energy(X, th, 3)
            close(a.calc_e(a.sample, th), E, 'energy function of the sampler', rtol=1e-9, atol=1e-7 * (1 + np.abs(th).sum()))
    N = 8000 if case['boost'] else 1500
    a.generate_sample(N, n_iters=1, burn_in=case['burn'], systematic_iter=case['sysit'])
    X = np.asarray(a.sample).astype(int)
    chain.check_steps(X, chain.acceptance(X, h, J, k), 'sample after the calls', case['sysit'])
    ctx.tag('%s%s' % (case['kind'], ' compiled' if case['boost'] else ''))
    ctx.trivial(len(set(case['ops'])) < 2)


fresh_case = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['ising', 'ising', 'potts']), boost=st.booleans(), seed=gen.seeds, n=st.sampled_from([200, 260]), sysit=st.booleans(),
    rng=st.sampled_from([True, True, False]), ops=st.lists(st.sampled_from(['seq', 'par', 'par', 'cond', 'condpar', 'theta', 'given', 'new', 'front']), min_size=2, max_size=4)))


@P.sub('fresh_draws', fresh_case, quick=14, thorough=200)
def fresh_draws(case, ctx):
    """States of independent spins, many steps apart, resemble each other only by chance: within a sample (so also between
    processes) and between calls."""
    import multiprocess
    n, k = case['n'], 2 if case['kind'] == 'ising' else 3
    r = np.random.RandomState(case['seed'] % 2**31)
    rest = n * (n - 1) // 2

    def fields():
        h = r.uniform(.2, .6, (k - 1, n)) * r.choice([-1, 1], size=(k - 1, n))
        return h if k == 2 else np.vstack([h, np.zeros((1, n))])
    h = fields()
    full = lambda: np.concatenate([h.ravel(), np.zeros(rest)])
    def make():
        c = build(dict(case, th=full()))
        if not case['rng']:
            from coniii.samplers import Metropolis, Potts3
            a = dict(boost=case['boost'], calc_e=c.calc_e)
            c = Metropolis(n, full(), iprint=False, **a) if k == 2 else Potts3(n, full(), n_cpus=3, **a)
        c.calc_e = f1 if k == 2 else f2                # fields only
        return c
    f1 = lambda X, th: -np.asarray(X).dot(th[:n])
    f2 = lambda X, th: -th[np.asarray(X) * n + np.arange(n)].sum(1)
    s = make()
    cpus = multiprocess.cpu_count()
    rows, means, where = [], [], []
    for t, o in enumerate(case['ops']):
        kw = dict(n_iters=16 * n, burn_in=16 * n, systematic_iter=case['sysit'])
        N = 6
        if o == 'theta':
            h = fields()
            s.update_parameters(full())
            continue
        if o == 'new':          # another sampler with the same parameters; a generator of its own or the default
            if not case['rng']:
                s = make()
            continue
        if o in ('cond', 'condpar') and k == 2:
            if o == 'condpar' and not case['boost']:
                continue
            s.generate_cond_sample(N, [(3, 1), (n - 1, -1)], parallel=o == 'condpar', **kw)
        elif o == 'given' and not case['boost']:
            s.generate_sample_parallel(2 * cpus, initial_sample=np.ones((cpus, n), dtype=int), **kw)
        elif o == 'front':
            if k == 3 or case['rng']:
                continue
            from coniii.samplers import sample_ising
            par = bool(t % 2)
            s.sample = sample_ising(full(), 2 * cpus if par else N, parallel=par, generate_sample_kw=kw)
        elif o == 'par' or o == 'given':
            s.generate_sample_parallel(2 * cpus, **kw)
        else:
            s.generate_sample(N, **kw)
        X = np.asarray(s.sample)
        if k == 2:
            p = np.array([np.exp(h[0]), np.exp(-h[0])])
            one = np.array([X == 1, X == -1])
        else:
            p = np.exp(h)
            one = np.array([X == a for a in range(3)])
        p /= p.sum(0)
        rows += list(one.transpose(1, 0, 2))
        means += [p] * len(X)
        where += ['%s (call %d) state %d' % (o, t, i) for i in range(len(X))]
    if not rows:
        return ctx.trivial()
    chain.unrelated(rows, means, where)
    for o in case['ops']:
        ctx.tag('%s%s' % (o, ' compiled' if case['boost'] else ''))
    ctx.trivial(sum(o not in ('theta', 'new') for o in case['ops']) < 2)
