"""C27: iterative coarse graining by similarity."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, same, raises

P = Prop('C27', 'generated data, similarities, merging functions and depths; non-trivial: three columns or more, not all similarities equal')


def pairs(X, f):
    X = X.astype(float)
    return np.array([f(X[:, i], X[:, j]) for i, j in itertools.combinations(range(X.shape[1]), 2)])


SIM = dict(dot=lambda a, b: a.dot(b), opposite=lambda a, b: -a.dot(b), distance=lambda a, b: -np.abs(a - b).sum(),
           far=lambda a, b: ((a - b) ** 2).sum(), agree=lambda a, b: float((a == b).sum()), low=lambda a, b: a.dot(b) - 1e6,
           tiny=lambda a, b: a.dot(b) * 1e-12, const=lambda a, b: -1., first=lambda a, b: a[0] + b[0])
MERGE = dict(sum=lambda Y: Y.sum(1), max=lambda Y: Y.max(1), min=lambda Y: Y.min(1), prod=lambda Y: Y.prod(1),
             left=lambda Y: Y[:, 0], mean=lambda Y: Y.mean(1))
SYMMETRIC = ('sum', 'max', 'min', 'prod', 'mean')


@st.composite
def case(draw):
    n = draw(st.integers(2, 17))
    rows = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['spins', 'ints', 'floats']))
    elem = {'spins': st.sampled_from([-1, 1]), 'ints': st.integers(-9, 9), 'floats': gen.smooth(3.)}[kind]
    deep = [k for k in range(0, 5) if np.log2(n) > k]
    return dict(n=n, kind=kind, X=draw(st.lists(gen.vec(n, elem), min_size=rows, max_size=rows)),
                times=draw(st.sampled_from(deep + 2 * deep[1:])), sim=draw(st.sampled_from(sorted(SIM))),
                merge=draw(st.sampled_from(sorted(SYMMETRIC))), intsim=draw(st.booleans()))


def run(c, times, X, calls=None):
    from coniii.utils import coarse_grain_with_func

    def sim(Y):
        r = pairs(Y, SIM[c['sim']])
        if calls is not None:
            calls.append(Y.copy())
        if c['intsim'] and c['sim'] in ('dot', 'opposite', 'agree', 'far', 'distance') and c['kind'] != 'floats' and c['merge'] != 'mean':
            return r.astype(int)
        return r
    merge = MERGE[c['merge']]
    Y, groups = coarse_grain_with_func(X, times, sim, lambda Z: merge(Z))
    return np.asarray(Y), [[int(i) for i in g] for g in groups]


@P.sub('levels', case, quick=1500, thorough=10000)
def levels(c, ctx):
    X = np.array(c['X'])
    keep = X.copy()
    n = c['n']
    prevY, prevG = X.astype(float), [[i] for i in range(n)]
    Y, G = run(c, 0, X)
    same(Y, X, 'no coarse graining')
    same(np.array(G), np.arange(n)[:, None], 'groups without coarse graining')
    merge = MERGE[c['merge']]
    for t in range(1, c['times'] + 1):
        calls = []
        Y, G = run(c, t, X, calls)
        same(X, keep, 'the data (not to be changed)')
        need(sorted(i for g in G for i in g) == list(range(n)), 'groups %s do not contain every column once', G)
        need(Y.shape == (len(X), len(G)) and len(G) == (len(prevG) + 1) // 2, 'shape %s with %d groups after %d columns', Y.shape, len(G), len(prevG))
        # every group consists of two groups of the level before, or of one if left over
        sets = [frozenset(g) for g in prevG]
        parts = []
        for g in G:
            p = [k for k, s in enumerate(sets) if s <= set(g)]
            need(set().union(*[sets[k] for k in p]) == set(g), 'group %s is not made of groups %s', g, prevG)
            parts.append(p)
        need(sorted(map(len, parts)) == sorted([2] * (len(prevG) // 2) + [1] * (len(prevG) % 2)), 'sizes of the groups: %s', parts)
        for k, p in enumerate(parts):
            close(Y[:, k], merge(prevY[:, p]) if len(p) == 2 else prevY[:, p[0]], 'column %d made of %s at level %d' % (k, p, t), rtol=1e-12)
        # greedy: the most similar of the remaining pairs is always one of the pairs
        m = len(prevG)
        cij = dict(zip(itertools.combinations(range(m), 2), pairs(prevY, SIM[c['sim']])))
        left, todo = set(range(m)), [tuple(p) for p in parts if len(p) == 2]
        while todo:
            top = max(v for (i, j), v in cij.items() if i in left and j in left)
            best = [p for p in todo if cij[p] >= top - 1e-9 * max(1., abs(top)) * (0 if c['kind'] != 'floats' and c['merge'] != 'mean' else 1)]
            need(bool(best), 'level %d: of the columns %s none of the pairs %s has the largest similarity %r', t, sorted(left), todo, top)
            for p in best[:1]:
                todo.remove(p)
                left -= set(p)
        prevY, prevG = Y.astype(float), G
    ctx.tag('depth %d' % c['times'])
    ctx.tag('odd', n % 2 == 1)
    ctx.tag(c['sim'])
    ctx.trivial(n < 3 or c['times'] == 0 or c['sim'] == 'const')


@P.sub('order', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 9), X=gen.vec(18, st.integers(-9, 9)), perm=st.randoms(use_true_random=False).map(lambda r: r.sample(range(9), 9)))), quick=500, thorough=8000)
def order(c, ctx):
    """Relabelled columns are grouped in the same way if similarities differ."""
    from coniii.utils import coarse_grain_with_func
    n = c['n']
    X = np.array(c['X']).reshape(2, 9)[:, :n] * 1.
    pi = [i for i in c['perm'] if i < n]
    sim = lambda Y: pairs(Y, lambda a, b: a.dot(b))
    s = sim(X)
    if len(set(s)) < len(s):
        return ctx.trivial()
    k = 1 if n > 2 else 0
    a = coarse_grain_with_func(X, k, sim, lambda Z: Z.sum(1))
    b = coarse_grain_with_func(X[:, pi], k, sim, lambda Z: Z.sum(1))
    A = {frozenset(g): tuple(a[0][:, i]) for i, g in enumerate(a[1])}
    B = {frozenset(pi[q] for q in g): tuple(b[0][:, i]) for i, g in enumerate(b[1])}
    need(A == B, 'columns %s relabelled give %s instead of %s', pi, B, A)
    ctx.trivial(n == 2)


@P.sub('rejects', cases=[dict(n=n, t=t) for n in range(1, 10) for t in range(0, 5)], exhaustive=True)
def rejects(c, ctx):
    from coniii.utils import coarse_grain_with_func
    X = np.arange(2 * c['n']).reshape(2, c['n'])
    f = lambda: coarse_grain_with_func(X, c['t'], lambda Y: pairs(Y, SIM['dot']), MERGE['sum'])
    if 2 ** c['t'] >= c['n']:
        raises(f, '%d columns coarse grained %d times' % (c['n'], c['t']))
    else:
        f()


@P.sub('many_columns', gen.large(17, 70, rows=5, kind=st.sampled_from(['spins', 'ints', 'floats']), times=st.integers(1, 5), intsim=st.booleans(),
       sim=st.sampled_from(sorted(set(SIM) - {'const', 'first'})), merge=st.sampled_from(sorted(set(SYMMETRIC) - {'mean'}))), quick=40, thorough=800)
def many_columns(c, ctx):
    r = np.random.RandomState(c['seed'])
    X = {'spins': lambda s: r.choice([-1, 1], size=s), 'ints': lambda s: r.randint(-9, 10, s), 'floats': lambda s: r.uniform(-3, 3, s)}[c['kind']]((c['R'], c['n']))
    t = min(c['times'], int(np.ceil(np.log2(c['n']))) - 1)
    levels(dict(c, X=X.tolist(), times=t), ctx)
