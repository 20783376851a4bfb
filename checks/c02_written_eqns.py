"""C02: equation files written by coniii.enumerate compute the model asked for."""
import importlib.util, os, subprocess, sys, shutil
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.build import REPO
from vh.oracle import need, close, same, states, monomials, nparams, softmax, subsets

P = Prop('C02', 'generated sizes, bases, precisions and sets of interaction terms in any order, written to a scratch folder and '
         'loaded; non-trivial: more than one order of interaction and non-zero parameters')
_seq = [0]


def load(path):
    _seq[0] += 1
    name = 'coniii.ising_eqn._vh_%d' % _seq[0]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def features(n, sym, terms):
    S = states(n, sym).astype(float)
    return np.array([S[:, list(t)].prod(1) for t in terms]).T


def compare(m, n, sym, terms, th, what):
    M = features(n, sym, terms)
    want = softmax(M.dot(th))
    got = m.p(np.array(th))
    need(np.shape(got) == (2**n,), '%s p: shape %s', what, np.shape(got))
    close(np.array(got, float), want, what + ' p', rtol=1e-9, atol=1e-280)
    c = m.calc_observables(np.array(th))
    close(np.array(c, float), want.dot(M), what + ' calc_observables', rtol=0, atol=1e-9)


def compare_hp(m, n, sym, terms, th, what):
    """With many digits the file must be right to all of them but a few."""
    import mpmath as mp
    r = int(round(1e3 * abs(sum(th))))
    dps = 40 if r % 2 else 90
    scale = (1, 1, 30, 1000)[r % 7 % 4]         # probabilities far below the smallest float, too
    with mp.workdps(dps):
        tol = mp.mpf(10)**(8 - dps)
        t = np.array([mp.mpf(v) * scale / 3 for v in th], dtype=object)
        p, c = m.p(t), m.calc_observables(t)
        M = features(n, sym, terms).astype(int)
        e = [mp.fsum(int(a) * b for a, b in zip(row, t)) for row in M]
        mx = max(e)
        w = [mp.exp(v - mx) for v in e]
        z = mp.fsum(w)
        need(len(p) == 2**n and len(c) == len(terms), '%s: sizes %d, %d', what, len(p), len(c))
        for i in range(2**n):
            need(abs(p[i] - w[i] / z) <= tol * w[i] / z * (1 + max(map(abs, e))), '%s p[%d] is %s instead of %s', what, i, p[i], w[i] / z)
        for j in range(len(terms)):
            x = mp.fsum(int(M[i, j]) * w[i] for i in range(2**n)) / z
            need(abs(c[j] - x) <= tol * (1 + max(map(abs, e))) * (x if sym == 0 else 1), '%s correlation %d is %s instead of %s', what, j, c[j], x)


def fresh():
    shutil.rmtree('ising_eqn', ignore_errors=True)


def only(name):
    got = sorted(f for f in os.listdir('ising_eqn') if f.endswith('.py'))
    need(got == [name], 'wrote %s instead of %s', got, name)
    return os.path.join('ising_eqn', name)


def terms_of(n, order):
    return [t for k in range(1, order + 1) for t in subsets(n, k)]


def name_of(n, sym, order, hp):
    return 'ising_eqn_%d%s%s%s.py' % (n, '_sym' if sym else '', '_triplet' if order == 3 else '', '_hp' if hp else '')


@st.composite
def std_case(draw):
    order = draw(st.sampled_from([2, 2, 3]))
    n = draw(st.integers(order, 6 if order == 2 else 5))
    return dict(n=n, order=order, sym=draw(st.booleans()), hp=draw(st.booleans()), positional=draw(st.booleans()),
                th=draw(gen.theta(n, draw(st.sampled_from([.5, 2., 20.])), order)))


@P.sub('pairwise_and_triplet', std_case, quick=60, thorough=1200)
def standard(case, ctx):
    from coniii import enumerate as en
    n, order, sym, hp = case['n'], case['order'], case['sym'], case['hp']
    f = en.pairwise if order == 2 else en.triplet
    fresh()
    kw = {} if not hp and case['positional'] else dict(high_prec=hp)
    if not sym and case['positional']:
        f(n, **kw)
    else:
        f(n, int(sym), **kw)
    m = load(only(name_of(n, sym, order, hp)))
    compare(m, n, sym, terms_of(n, order), case['th'], 'file')
    compare(m, n, sym, terms_of(n, order), [0.] * len(case['th']), 'file at zero')
    if hp:
        compare_hp(m, n, sym, terms_of(n, order), case['th'], 'high precision file')
    ctx.tag('high precision', hp)
    ctx.tag('n=%d order=%d' % (n, order))
    ctx.trivial(not np.any(case['th']))


def all_std(tier):
    top = {2: 7, 3: 6} if tier == 'quick' else {2: 10, 3: 8}
    return [[n, order, sym] for order in (2, 3) for n in range(order, top[order] + 1) for sym in (0, 1)]


@P.sub('every_size', cases=all_std, exhaustive=True, soft=200)
def every_size(case, ctx):
    from coniii import enumerate as en
    n, order, sym = case
    fresh()
    (en.pairwise if order == 2 else en.triplet)(n, sym)
    m = load(only(name_of(n, sym, order, False)))
    T = terms_of(n, order)
    rng = np.random.RandomState(n * 100 + order * 10 + sym)
    for scale in (.3, 3.):
        compare(m, n, sym, T, rng.uniform(-scale, scale, len(T)), 'file of %d spins' % n)


@st.composite
def any_terms(draw):
    n = draw(st.integers(2, 5))
    orders = draw(st.integers(1, min(n, 4)))
    terms = []
    for k in range(1, orders + 1):
        pool = subsets(n, k)
        how = draw(st.sampled_from(['all', 'some', 'one']))
        if how == 'all':
            t = list(pool)
        elif how == 'one':
            t = [draw(st.sampled_from(pool))]
        else:
            t = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=len(pool), unique=True))
        # np.where lists subsets in order, but any order is an index structure
        if not draw(st.booleans()):
            t = sorted(t)
        terms.append([list(x) for x in t])
    size = sum(len(t) for t in terms)
    return dict(n=n, terms=terms, sym=draw(st.booleans()), hp=draw(st.sampled_from([False, False, True])),
                suffix=draw(st.sampled_from(['', '_sym', '_x1'])),
                how=draw(st.sampled_from(['array', 'list'])), th=draw(gen.vec(size, gen.reals(3.))))


@P.sub('arbitrary_terms', any_terms, quick=120, thorough=3000)
def arbitrary(case, ctx):
    from coniii.enumerate import write_eqns
    n, sym, hp = case['n'], case['sym'], case['hp']
    if case['how'] == 'array':
        ix = [tuple(np.array(t).T) for t in case['terms']]
    else:
        ix = [list(zip(*t)) for t in case['terms']]
    fresh()
    write_eqns(n, int(sym), ix, suffix=case['suffix'], high_prec=hp)
    m = load(only('ising_eqn_%d%s%s.py' % (n, case['suffix'], '_hp' if hp else '')))
    flat = [t for ts in case['terms'] for t in ts]
    compare(m, n, sym, flat, case['th'], 'file')
    if hp:
        compare_hp(m, n, sym, flat, case['th'], 'high precision file')
    ctx.tag('four orders', len(case['terms']) == 4)
    ctx.tag('incomplete', len(flat) < nparams(n, len(case['terms'])))
    ctx.trivial(len(case['terms']) < 2 or not np.any(case['th']))


@st.composite
def wide_case(draw):
    n = draw(st.integers(7, 11))
    orders = draw(st.integers(1, 3))
    spins = st.integers(0, n - 1)
    terms = [draw(st.lists(st.lists(spins, min_size=k, max_size=k, unique=True).map(sorted), min_size=1, max_size=4,
                           unique_by=tuple)) for k in range(1, orders + 1)]
    return dict(n=n, terms=terms, sym=draw(st.booleans()), hp=False, suffix='', how='array',
                th=draw(gen.vec(sum(map(len, terms)), gen.reals(3.))))


@P.sub('few_terms_of_many_spins', wide_case, quick=24, thorough=300)
def wide(case, ctx):
    arbitrary(case, ctx)
    ctx.tag('n=%d' % case['n'])


def cli_cases(tier):
    out = []
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6):
        for args in ([], ['0'], ['1'], ['0', '2'], ['1', '2'], ['0', '3'], ['1', '3']):
            if args[1:] == ['3'] and n < 3:
                continue
            for hp in (None, 'true', 'false', 'True'):
                out.append([n, args, hp])
    if tier == 'quick':
        out = [c for i, c in enumerate(out) if c[0] == 3 or i % 9 == 0]
    return out


@P.sub('command_line', cases=cli_cases, exhaustive=True)
def command_line(case, ctx):
    n, args, hp = case
    fresh()
    cmd = [sys.executable, '-B', os.path.join(REPO, 'coniii', 'enumerate.py'), str(n)] + args
    if hp:
        cmd.append('-hp=' + hp)
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    need(r.returncode == 0, '%s failed: %s', cmd[2:], r.stderr[-500:])
    sym = bool(args) and args[0] == '1'
    order = int(args[1]) if len(args) > 1 else 2
    high = hp is not None and hp.lower() == 'true'
    m = load(only(name_of(n, sym, order, high)))
    T = terms_of(n, order)
    th = np.random.RandomState(n).uniform(-1.5, 1.5, len(T))
    compare(m, n, sym, T, th, 'file written from the command line')
    if high:
        compare_hp(m, n, sym, T, th, 'file written from the command line')


@P.sub('shell_script', cases=[0])
def shell_script(case, ctx):
    """write_ising_files.sh asks for the sizes that are shipped."""
    with open(os.path.join(REPO, 'coniii', 'write_ising_files.sh')) as f:
        text = f.read()
    os.makedirs('sh', exist_ok=True)
    os.makedirs('bin', exist_ok=True)
    with open('bin/python', 'w') as f:
        f.write('#!/bin/bash\necho "$@" >> "$OUT"\n')
    os.chmod('bin/python', 0o755)
    with open('w.sh', 'w') as f:
        f.write(text)
    out = os.path.abspath('calls')
    r = subprocess.run(['/bin/bash', '../w.sh'], cwd='sh', capture_output=True, text=True, timeout=60,
                       env=dict(PATH=os.path.abspath('bin') + ':/usr/bin:/bin', OUT=out))
    need(r.returncode == 0, 'the script failed: %s', r.stderr)
    calls = [tuple(l.split()[1:]) for l in open(out)]
    want = [(str(n),) for n in range(2, 10)] + [(str(n), '1') for n in range(2, 10)] + [('5', '0', '3'), ('5', '1', '3')]
    norm = lambda c: (c[0], c[1] if len(c) > 1 else '0', c[2] if len(c) > 2 else '2')
    need(set(map(norm, want)) <= set(map(norm, calls)), 'the script writes %s', calls)


@P.sub('index_of_order', cases=lambda tier: [[k, n] for n in range(1, 9) for k in range(1, n + 1)], exhaustive=True)
def index_of_order(case, ctx):
    from coniii.enumerate import get_nidx, get_3idx
    k, n = case
    got = np.array(get_nidx(k, n))
    need(got.shape == (k, len(subsets(n, k))), 'shape %s', got.shape)
    same(got.T, np.array(subsets(n, k)), 'subsets of %d of %d' % (k, n))
    if k == 3:
        same(np.array(np.where(get_3idx(n))).T, np.array(subsets(n, 3)), 'get_3idx(%d)' % n)
    ctx.trivial(k == n)
