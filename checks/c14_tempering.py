"""C14: parallel tempering."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, chain
from vh.core import Prop
from vh.oracle import need, close, same, states, energy, index, nparams, chi2, boltzmann

P = Prop('C14', 'generated parameters, temperature ranges and numbers of replicas; replicas are put into exact equilibrium and must stay '
         'there; non-trivial: parameters not all zero',
         assumptions=['in most sub-checks the process pool is replaced by a serial one that copies the replicas by pickling as the pool '
                      'does; one sub-check uses the real pool'])


class SerialPool:
    copy = True

    def __init__(self, *a, **k):
        pass

    def map(self, f, args, *a, **k):
        if not self.copy:
            return [f(x) for x in args]
        import dill
        return [dill.loads(dill.dumps(f(dill.loads(dill.dumps(x))))) for x in args]

    def imap(self, f, args, *a, **k):
        return iter(self.map(f, args))

    def starmap(self, f, args, *a, **k):
        return self.map(lambda x: f(*x), args)

    def close(self):
        pass
    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_F = {}


def calc_e():
    if 'e' not in _F:
        from coniii import utils
        _F['e'] = utils.define_ising_helper_functions()[0]
    return _F['e']


def py_calc_e(S, th):
    """Picklable and quick for single states."""
    S = np.asarray(S, float)
    n = S.shape[1]
    i, j = np.triu_indices(n, 1)
    return -(S.dot(th[:n]) + (S[:, i] * S[:, j]).dot(th[n:]))


def tempering(case, serial=True, **kw):
    from coniii import samplers
    if serial:
        samplers.Pool = SerialPool
        SerialPool.copy = True
    np.random.seed(1)
    return samplers.ParallelTempering(case['n'], np.array(case['th'], float), py_calc_e, case['R'], Tbds=tuple(case['T']),
                                      rng=np.random.RandomState(case['seed']), replica_burnin=case.get('burn', 2), **kw)


@st.composite
def base(draw, top=3):
    n = draw(st.sampled_from([2, 3, 3][:top]))
    T0 = draw(st.sampled_from([.8, 1., 1., 1.5]))
    return dict(n=n, th=draw(gen.vec(nparams(n), gen.smooth(draw(st.sampled_from([.5, 1.]))))), R=draw(st.integers(2, 3)),
                T=[T0, T0 + draw(st.sampled_from([.5, 1., 2.]))], seed=draw(gen.seeds), burn=draw(st.integers(1, 5)))


def consistent(pt, case, what):
    """Every replica is at its own temperature, with the energy of its own state."""
    th = np.array(case['th'], float)
    b = np.array(pt.beta)
    need(b.shape == (case['R'],), '%s: %s temperatures', what, b.shape)
    need(bool((np.diff(b) > 0).all()), '%s: inverse temperatures %s are not in increasing order', what, b)
    need(abs(b[-1] - 1. / case['T'][0]) < 1e-12, '%s: the coldest inverse temperature is %r instead of %r', what, b[-1], 1. / case['T'][0])
    need(len(pt.replicas) == case['R'], '%s: %d replicas', what, len(pt.replicas))
    for i, r in enumerate(pt.replicas):
        close(r.theta, th * b[i], '%s: parameters of replica %d' % (what, i), rtol=1e-12, atol=1e-13)
        need(r.sample.shape == (1, case['n']) and bool(np.isin(r.sample, (-1, 1)).all()), '%s: replica %d has sample %s', what, i, r.sample)
        same(r.sample, r._samples, '%s: state and sample of replica %d' % (what, i))
        close(np.ravel(r.E), energy(r.sample, th * b[i]), '%s: energy of replica %d' % (what, i), rtol=0, atol=1e-8)
    need(sorted(r.index for r in pt.replicas) == list(range(case['R'])), '%s: replica numbers %s', what, [r.index for r in pt.replicas])


@P.sub('setup', base(), quick=24, thorough=300)
def setup(case, ctx):
    pt = tempering(case)
    consistent(pt, case, 'after setup')
    pt.burn_in_replicas(n_iters=3)
    consistent(pt, case, 'after burn_in_replicas')
    for _ in range(10):
        before = {r.index: None for r in pt.replicas}
        pt.burn_and_exchange(SerialPool())
        consistent(pt, case, 'after burn_and_exchange')
    pt.theta = np.array(case['th'], float) * -.5
    pt.update_replica_parameters()
    for i, r in enumerate(pt.replicas):
        close(r.theta, np.array(case['th']) * -.5 * pt.beta[i], 'parameters after update', rtol=1e-12, atol=1e-13)
    ctx.trivial(not np.any(case['th']))


def put(pt, S, picks):
    """Place replica i into state S[picks[i]]."""
    for i, r in enumerate(pt.replicas):
        s = S[picks[i]][None, :].copy()
        r._samples  # a name that must exist
        r._samples = s
        r.sample = s.copy()
        r.E = energy(s, np.asarray(r.theta))


@P.sub('invariance', base(), quick=14, thorough=200)
def invariance(case, ctx):
    """From exact equilibrium at every temperature, an update followed by exchanges stays in it, and
    so does the joint distribution of neighbouring replicas (they are independent)."""
    pt = tempering(case, rep_ex_burnin=1)
    n, th = case['n'], np.array(case['th'], float)
    S = states(n, True)
    ps = [boltzmann(th * b, n) for b in pt.beta]
    rng = np.random.RandomState(case['seed'] ^ 77)
    N = 1500
    picks = np.array([rng.choice(len(S), size=N, p=p) for p in ps]).T
    pool = SerialPool()
    out = np.zeros((N, case['R']), dtype=int)
    swaps = 0
    pool.copy = False           # for speed
    for t in range(N):
        put(pt, S, picks[t])
        ids = [r.index for r in pt.replicas]
        pt.burn_and_exchange(pool)
        swaps += ids != [r.index for r in pt.replicas]
        out[t] = [index(r.sample)[0] for r in pt.replicas]
        if t % 50 == 0:
            consistent(pt, case, 'after burn_and_exchange')
    for i in range(case['R']):
        chi2(np.bincount(out[:, i], minlength=len(S)), ps[i], 'states at inverse temperature %.3f' % pt.beta[i])
    for i in range(case['R'] - 1):
        joint = np.bincount(out[:, i] * len(S) + out[:, i + 1], minlength=len(S)**2)
        chi2(joint, np.outer(ps[i], ps[i + 1]).ravel(), 'joint states of replicas %d and %d' % (i, i + 1))
    need(swaps > 0, 'replicas were never exchanged')
    ctx.tag('three replicas', case['R'] > 2)
    ctx.trivial(not np.any(case['th']))


@st.composite
def ratio_case(draw):
    c = draw(base())
    c['picks'] = draw(st.lists(st.lists(st.integers(0, 7), min_size=3, max_size=3), min_size=3, max_size=10))
    return c


@P.sub('exchange_probability', ratio_case, quick=24, thorough=300)
def exchange_probability(case, ctx):
    pt = tempering(case)
    S = states(case['n'], True)
    th = np.array(case['th'], float)
    R = case['R']
    for pk in case['picks']:
        pk = [p % len(S) for p in pk]
        put(pt, S, pk)
        E0 = energy(S, th)
        want = np.array([min(1., np.exp((E0[pk[i]] - E0[pk[i + 1]]) * (pt.beta[i] - pt.beta[i + 1]))) for i in range(R - 1)])
        got = np.ravel(pt._acceptance_ratio(1, 0))
        close(got, want, 'acceptance of exchanges', atol=1e-9)
        for i in range(R - 1):
            close(np.ravel(pt._acceptance_ratio(1, 0, pairs=[(i, i + 1)])), want[i:i + 1], 'acceptance of exchange %d' % i, atol=1e-9)
        for i, r in enumerate(pt.replicas):
            same(r.sample[0], S[pk[i]], 'state of replica %d after estimating acceptance' % i)
    ctx.trivial(not np.any(case['th']))


@P.sub('samples', base(2), quick=8, thorough=120)
def samples(case, ctx):
    """Recorded samples of every replica follow its temperature; updates between records are long
    enough (by the exact kernel) for the records to be independent."""
    n, th = case['n'], np.array(case['th'], float)
    pt = tempering(case)
    S = states(n, True)
    k = 2
    for b in pt.beta:
        E = energy(S, th * b)
        Ks = chain.site_kernels(E, n, 2)
        p = boltzmann(th * b, n)
        while k < 60 and np.abs(chain.sweep(Ks, 0, k) - p).max() > 1e-4:
            k += 2
    if k >= 60:
        ctx.trivial()
        return
    pt.repExBurnin = k
    SerialPool.copy = False
    for save in (True, False):
        N = 800 if save else 200
        h = pt.generate_sample(N, save_exchange_trajectory=save)
        need(len(pt.sample) == case['R'], '%d samples', len(pt.sample))
        if save:
            need(h.shape == (N, case['R']), 'trajectory has shape %s', h.shape)
            same(np.sort(h, 1), np.tile(np.arange(case['R']), (N, 1)), 'each row of the trajectory lists every replica')
            need(len(np.unique(h[:, 0])) > 1, 'no exchange in the trajectory')
        else:
            need(h is None, 'returned %r', type(h))
        for X, b in zip(pt.sample, pt.beta):
            need(X.shape == (N, n) and bool(np.isin(X, (-1, 1)).all()), 'sample has shape %s', X.shape)
            chi2(np.bincount(index(X), minlength=len(S)), boltzmann(th * b, n), 'sample at inverse temperature %.3f' % b)
        consistent(pt, case, 'after generate_sample')
    ctx.trivial(not np.any(th))


@P.sub('reproducible', base(), quick=10, thorough=100)
def reproducible(case, ctx):
    out = []
    for i in range(2):
        pt = tempering(case, rep_ex_burnin=3)
        h = pt.generate_sample(20, save_exchange_trajectory=True)
        out.append((np.array(pt.beta), h, np.array(pt.sample)))
    for a, b, what in zip(out[0], out[1], ('temperatures', 'trajectory', 'samples')):
        same(a, b, what + ' of two samplers with equal generators')
    pt = tempering(dict(case, seed=case['seed'] ^ 1), rep_ex_burnin=3)
    pt.generate_sample(20)
    need(not np.array_equal(np.array(pt.sample), out[0][2]), 'another seed gives the same samples')


@st.composite
def beta_case(draw):
    R = draw(st.integers(2, 7))
    gaps = draw(gen.vec(R - 1, st.integers(1, 100).map(lambda i: i / 100.)))
    return dict(b0=draw(st.integers(1, 100)) / 100., gaps=gaps, acc=draw(gen.vec(R - 1, st.integers(1, 100).map(lambda i: i / 100.))))


@P.sub('iterate_beta', beta_case, quick=500, thorough=5000)
def iterate_beta(case, ctx):
    """Gaps are scaled by the relative acceptance, from the coldest one, which stays."""
    from coniii.samplers import ParallelTempering
    b = np.concatenate([[case['b0']], case['b0'] + np.cumsum(case['gaps'])])
    a = np.array(case['acc'])
    keep = b.copy()
    new = ParallelTempering.iterate_beta(b, a)
    same(b, keep, 'the given inverse temperatures')
    need(new.shape == b.shape, 'shape %s', new.shape)
    need(new[-1] == b[-1], 'the coldest temperature changed')
    close(np.diff(new), np.diff(b) * a / a.mean(), 'gaps', atol=1e-9)
    lin = ParallelTempering.initialize_beta(b[0], b[-1], len(b))
    close(lin, b[0] + (b[-1] - b[0]) * np.arange(len(b)) / (len(b) - 1), 'initial inverse temperatures')
    ctx.trivial(len(b) < 3)


@P.sub('real_pool', cases=[dict(n=3, th=[.5, -.3, .2, .4, -.6, .3], R=3, T=[1., 2.], seed=5, burn=4)])
def real_pool(case, ctx):
    pt = tempering(case, serial=False, rep_ex_burnin=6)
    consistent(pt, case, 'after setup')
    h = pt.generate_sample(60, save_exchange_trajectory=True)
    same(np.sort(h, 1), np.tile(np.arange(3), (60, 1)), 'each row of the trajectory lists every replica')
    consistent(pt, case, 'after generate_sample')


@P.sub('fresh_draws', cases=lambda tier: [dict(n=160, R=2 + i % 3, seed=i) for i in range(1 if tier == 'quick' else 12)])
def fresh_draws(case, ctx):
    """States of independent spins, at all temperatures and in successive calls of real processes, resemble each other only by chance."""
    from coniii.samplers import ParallelTempering
    n, R = case['n'], case['R']
    r = np.random.RandomState(case['seed'])
    h = r.uniform(.3, .6, n) * r.choice([-1, 1], size=n)
    pt = ParallelTempering(n, np.concatenate([h, np.zeros(n * (n - 1) // 2)]), lambda X, th: -np.asarray(X).dot(th[:n]), R, Tbds=(1., 1.5),
                           replica_burnin=n, rep_ex_burnin=16 * n, rng=r if case['seed'] % 2 else None)
    rows, means, where = [], [], []
    for t in range(3):
        pt.generate_sample(4)
        for j in range(R):
            if pt.beta[j] < .3:          # almost every flip is accepted: sweeps in turn hardly mix
                continue
            for i, x in enumerate(np.asarray(pt.sample[j])):
                p = np.exp(np.outer([1, -1], pt.beta[j] * h))
                rows.append(np.array([x == 1, x == -1]))
                means.append(p / p.sum(0))
                where.append('record %d of replica %d in call %d' % (i, j, t))
    chain.unrelated(rows, means, where)


@P.sub('many_replicas', gen.large(4, 20, R=st.integers(4, 9), burn=st.integers(1, 30), scales=(.3, 1., 3.)), quick=4, thorough=120)
def many_replicas(case, ctx):
    """More spins and temperatures: bookkeeping, and acceptance ratios for every pair."""
    R, n = case['R'], case['n']
    th = chain.large_model(case)[1]
    case = dict(case, th=th, T=[1., 1. + case['scale'] * 2])
    pt = tempering(case, rep_ex_burnin=2)
    consistent(pt, case, 'after setup')
    r = np.random.RandomState(case['seed'])
    S = r.choice([-1, 1], size=(R, n))
    for _ in range(3):
        put(pt, S, r.permutation(R))
        E0 = [energy(q.sample, th)[0] for q in pt.replicas]
        want = np.array([min(1., np.exp(min(0., (E0[i] - E0[i + 1]) * (pt.beta[i] - pt.beta[i + 1])))) for i in range(R - 1)])
        close(np.ravel(pt._acceptance_ratio(1, 0)), want, 'acceptance of exchanges', atol=1e-9)
        pk = [(i, i + 1) for i in range(0, R - 1, 2)]
        close(np.ravel(pt._acceptance_ratio(1, 0, pairs=pk)), want[::2], 'acceptance of some exchanges', atol=1e-9)
    for _ in range(6):
        pt.burn_and_exchange(SerialPool())
        consistent(pt, case, 'after burn_and_exchange')
    h = pt.generate_sample(10, save_exchange_trajectory=True)
    same(np.sort(h, 1), np.tile(np.arange(R), (10, 1)), 'each row of the trajectory lists every replica')
    consistent(pt, case, 'after generate_sample')
    ctx.tag('%d replicas' % R)


@P.sub('optimise', st.tuples(base(), st.integers(1, 6), st.integers(1, 8), st.sampled_from([0., 0., .01, .5]), st.integers(1, 4), st.booleans())
       .map(lambda t: dict(t[0], samples=t[1], iters=t[2], tol=t[3], rounds=t[4], theta=t[5])), quick=10, thorough=200)
def optimise(case, ctx):
    """After the temperatures were optimised again, whether or not that converged, each replica is at its new temperature."""
    pt = tempering(case)
    for r in range(2):
        if case['theta'] and r:
            case = dict(case, th=[-.5 * t for t in case['th']])
            pt.theta = np.array(case['th'])
        pt.optimize_beta(case['samples'], case['iters'], tol=case['tol'], max_iter=case['rounds'])
        b = np.array(pt.beta)
        need(b.shape == (case['R'],) and bool((np.diff(b) > 0).all()), 'inverse temperatures %s', b)
        need(abs(b[-1] - 1. / case['T'][0]) < 1e-12, 'the coldest inverse temperature is %r', b[-1])
        for i, q in enumerate(pt.replicas):
            close(q.theta, np.array(case['th']) * b[i], 'parameters of replica %d after optimize_beta' % i, rtol=1e-12, atol=1e-13)
        if (np.abs(b) > 1e-9).all():
            pt.burn_and_exchange(SerialPool())
            consistent(pt, case, 'after optimize_beta and burn_and_exchange')
    # without energies every exchange is accepted and temperatures stay, so that one round is enough
    pt = tempering(dict(case, th=[0.] * len(case['th'])))
    calls, burn, b = [], pt.burn_in_replicas, np.array(pt.beta)
    pt.burn_in_replicas = lambda *a, **k: (calls.append(1), burn(*a, **k))[1]
    pt.optimize_beta(case['samples'], 1, tol=1e-6, max_iter=3)
    close(pt.beta, b, 'inverse temperatures where all exchanges are accepted', rtol=0, atol=1e-12)
    need(len(calls) == case['samples'], '%d estimates for %d samples in a round that changed nothing', len(calls), case['samples'])
    ctx.tag('runs out of rounds', case['tol'] == 0)
    ctx.trivial(not np.any(case['th']))


steps_case = st.fixed_dictionaries(dict(n=st.integers(6, 14), R=st.integers(2, 4), a=st.integers(1, 3), b=st.integers(1, 3), own=st.booleans(), seed=gen.seeds))


@P.sub('number_of_steps', steps_case, quick=14, thorough=500)
def number_of_steps(case, ctx):
    """Strong fields turn every spin that is visited, so spins that have turned count the steps that were made."""
    n, R = case['n'], case['R']
    s = np.random.RandomState(case['seed']).choice([-1, 1], size=n)
    th = np.concatenate([60. * s, np.zeros(n * (n - 1) // 2)])

    def turned(pt, what, most=None):
        for i, r in enumerate(pt.replicas):
            k = int((r.sample[0] == s).sum())
            if most is None:
                need(k >= n // 2, '%s: %d of %d spins of replica %d were visited', what, k, n, i)
            else:
                need(1 <= k <= most, '%s: %d of %d spins of replica %d were visited', what, k, n, i)
    S = -s[None]
    c = dict(case, th=th, T=[1., 1.5], burn=case['a'] if case['own'] else 8 * n)
    pt = tempering(c, rep_ex_burnin=case['b'])
    put(pt, S, [0] * R)
    pt.burn_in_replicas()
    turned(pt, 'burn_in_replicas()', 2 * case['a'] if case['own'] else None)
    put(pt, S, [0] * R)
    pt.burn_in_replicas(n_iters=8 * n if case['own'] else case['b'])
    turned(pt, 'burn_in_replicas(n_iters)', None if case['own'] else 2 * case['b'])
    put(pt, S, [0] * R)
    pt.burn_and_exchange(SerialPool())
    turned(pt, 'burn_and_exchange', 2 * case['b'])
    put(pt, S, [0] * R)
    got = np.ravel(pt._acceptance_ratio(1, case['a']))
    turned(pt, 'acceptance ratio', 2 * case['a'])
    E = [energy(r.sample, th)[0] for r in pt.replicas]
    want = [min(1., np.exp((E[i] - E[i + 1]) * (pt.beta[i] - pt.beta[i + 1]))) for i in range(R - 1)]
    close(got, want, 'acceptance of exchanges between the states that were reached', rtol=1e-6, atol=1e-9)
    pt = tempering(dict(c, burn=3), rep_ex_burnin=8 * n)
    put(pt, S, [0] * R)
    pt.burn_and_exchange(SerialPool())
    turned(pt, 'burn_and_exchange')
    ctx.tag('own number', case['own'])
