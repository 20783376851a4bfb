"""C26: simulation of the two-dimensional lattice."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, same, softmax, chi2, binom_ok, states, raises

P = Prop('C26', 'generated lattice shapes, couplings, fields, numbers of iterations; non-trivial: non-zero coupling',
         assumptions=['each statistical test has a false-alarm probability below 1e-9'])
_S = {}


def lat():
    from coniii.ising import automaton
    return automaton


def seed(k):
    """Both generators that the simulation may use."""
    if 'f' not in _S:
        from numba import njit

        @njit
        def f(k):
            np.random.seed(k)
        _S['f'] = f
    _S['f'](k)
    np.random.seed(k)


def lattice_energy(L, J, h):
    """-J sum over right and lower neighbours on the torus - sum h s"""
    L = np.asarray(L, float)
    bonds = (L * np.roll(L, -1, 0)).sum() + (L * np.roll(L, -1, 1)).sum()
    return -J * bonds - (h * L).sum()


@st.composite
def flip_case(draw):
    d = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    k = d[0] * d[1]
    return dict(d=d, s=draw(gen.spins(k)), h=draw(gen.reals(1.5)), J=draw(gen.reals(.8)), i=draw(st.integers(0, d[0] - 1)),
                j=draw(st.integers(0, d[1] - 1)), seed=draw(gen.seeds))


@P.sub('acceptance', flip_case, quick=150, thorough=3000)
def acceptance(c, ctx):
    """A single attempt flips its site with probability min(1, exp(-dE)) and no other."""
    d, i, j = c['d'], c['i'], c['j']
    L = np.array(c['s'], np.int8).reshape(d)
    h = np.zeros(d)
    h[i, j] = c['h']
    F = L.copy()
    F[i, j] *= -1
    dE = lattice_energy(F, c['J'], h) - lattice_energy(L, c['J'], h)
    p = 1. if dE <= 1e-12 else np.exp(-dE)
    f = lat().Ising2D.flip_metropolis
    seed(c['seed'])
    hits, N = 0, 1500
    for t in range(N):
        X = L.copy()
        R = f(i, j, float(c['h']), float(c['J']), X)
        need(R is X or np.array_equal(R, X), 'the returned lattice is not the given one')
        if X[i, j] != L[i, j]:
            hits += 1
            need(np.array_equal(X, F), 'other sites changed')
        else:
            need(np.array_equal(X, L), 'other sites changed')
    if abs(dE) < 1e-12:
        need(hits == N, 'flips without cost are accepted: %d of %d', hits, N)
    binom_ok(hits, N, p, 'acceptance of dE=%.4g' % dE)
    ctx.tag('uphill', dE > 0)
    ctx.tag('width one', min(d) == 1)
    ctx.tag('width two', min(d) == 2)
    ctx.trivial(c['J'] == 0)


@st.composite
def block_case(draw):
    a, b = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]))
    s = draw(st.sampled_from([.3, .8]))
    c = dict(a=a, b=b, J=draw(st.integers(-100, 100)) / 100. * s, h=draw(gen.vec(a * b, gen.smooth(1.))), walls=draw(gen.spins(a + b + 1)),
             seed=draw(gen.seeds), extra=draw(st.integers(0, 2)), systematic=draw(st.booleans()), scalar=draw(st.booleans()))
    if not c['J']:
        c['J'] = .1
    return c


@P.sub('equilibrium', block_case, quick=20, thorough=300)
def equilibrium(c, ctx):
    """Strong fields freeze walls between many equal blocks, whose joint states must be Boltzmann distributed."""
    a, b, J, k = c['a'], c['b'], c['J'], c['a'] * c['b']
    ta, tb = 24 + c['extra'], 25
    tile = np.zeros((a + 1, b + 1))
    wall = np.zeros((a + 1, b + 1))
    wall[a, :] = c['walls'][:b + 1]
    wall[:a, b] = c['walls'][b + 1:]
    tile[:a, :b] = np.array(c['h']).reshape(a, b)
    H = np.tile(tile + 1e3 * wall, (ta, tb))
    m = lat().Ising2D(H.shape, J, h=H, rng=np.random.RandomState(c['seed']))
    need(m.lattice.shape == H.shape and set(np.unique(m.lattice)) <= {-1, 1}, 'the first lattice is not of spins')
    sweeps = 1000
    m.iterate(sweeps * H.size, systematic=c['systematic'])
    L = np.asarray(m.lattice)
    W = np.tile(wall, (ta, tb))
    need((L[W != 0] == W[W != 0]).all(), 'sites in a strong field are not aligned with it')
    # joint distribution of a block given its walls
    S = states(k, True)
    E = []
    for s in S:
        X = wall.copy()
        X[:a, :b] = s.reshape(a, b)
        Y = np.tile(X, (3, 3))        # the middle block sees walls only; flips there cost what the energy says
        Z = np.tile(wall + (wall == 0), (3, 3))
        Z[a + 1:2 * a + 1, b + 1:2 * b + 1] = s.reshape(a, b)
        E.append(lattice_energy(Z, J, 0.) - s.dot(np.array(c['h'])))
    p = softmax(-np.array(E))
    B = L.reshape(ta, a + 1, tb, b + 1).transpose(0, 2, 1, 3)[:, :, :a, :b].reshape(-1, k)
    ix = ((B > 0) @ (2 ** np.arange(k - 1, -1, -1))).astype(int)
    chi2(np.bincount(ix, minlength=2 ** k), p, 'states of %d blocks of %dx%d' % (len(B), a, b))
    ctx.tag('systematic', c['systematic'])
    ctx.tag('antiferromagnetic', J < 0)


@st.composite
def count_case(draw):
    d = [draw(st.integers(1, 9)), draw(st.integers(1, 9))]
    return dict(d=d, n=draw(st.one_of(st.integers(0, 20), st.integers(0, 4 * d[0] * d[1] + 1))), seed=draw(gen.seeds),
                systematic=draw(st.booleans()), h=draw(st.sampled_from(['none', 'scalar', 'array'])))


@P.sub('attempts', count_case, quick=30, thorough=500)
def attempts(c, ctx):
    """Without coupling and field every attempt is a flip, so that attempts can be counted."""
    d, n = c['d'], c['n']
    size = d[0] * d[1]
    kw = {'none': {}, 'scalar': dict(h=0.), 'array': dict(h=np.zeros(d))}[c['h']]
    m = lat().Ising2D(tuple(d), 0., rng=np.random.RandomState(c['seed']), **kw)
    L0 = np.array(m.lattice)
    need(L0.shape == tuple(d) and set(np.unique(L0)) <= {-1, 1}, 'the first lattice is not of spins')
    m.iterate(n, systematic=c['systematic'])
    L = np.asarray(m.lattice)
    need(L.shape == tuple(d) and set(np.unique(L)) <= {-1, 1}, 'the lattice is not of spins')
    flipped = int((L != L0).sum())
    if c['systematic']:
        sweeps = -(-n // size)
        same(L, L0 * (-1) ** sweeps, 'lattice after %d sweeps without coupling' % sweeps)
    else:
        need(flipped % 2 == n % 2 and flipped <= n, '%d sites differ after %d attempts', flipped, n)
    ctx.tag('systematic', c['systematic'])
    ctx.trivial(n == 0)


@st.composite
def visit_case(draw):
    return dict(d=[draw(st.integers(20, 60)), draw(st.integers(20, 60))], frac=draw(st.sampled_from([.3, 1., 2.])), seed=draw(gen.seeds))


@P.sub('visits', visit_case, quick=10, thorough=150)
def visits(c, ctx):
    """Random attempts visit all sites equally: sites flip once into a strong field and stay."""
    d = tuple(c['d'])
    size = d[0] * d[1]
    m = lat().Ising2D(d, .2, rng=np.random.RandomState(c['seed']))
    L0 = np.array(m.lattice)
    m.h = -1e3 * L0.astype(float)
    n = int(size * c['frac'])
    m.iterate(n, systematic=False)
    moved = np.asarray(m.lattice) != L0
    q = 1 - (1 - 1. / size) ** n
    for ax in (0, 1):
        k = moved.sum(ax)
        for t in range(len(k)):         # occupations are negatively correlated: binomial tails bound them
            binom_ok(int(k[t]), d[ax], q, 'visited sites in line %d' % t, alpha=1e-11)
    z = (moved.sum() - size * q) / np.sqrt(size * q * (1 - q))
    need(abs(z) < 6.5, '%d of %d sites visited by %d attempts, expected %.0f', moved.sum(), size, n, size * q)
    m.iterate(size, systematic=True)
    same(m.lattice, -L0, 'every site is visited by a sweep')


@st.composite
def seed_case(draw):
    d = [draw(st.integers(2, 8)), draw(st.integers(2, 8))]
    return dict(d=d, J=draw(gen.smooth(.5)), h=draw(st.one_of(gen.smooth(1.), gen.vec(d[0] * d[1], gen.smooth(1.)))), seed=draw(gen.seeds),
                calls=draw(st.lists(st.tuples(st.integers(1, 60), st.booleans()), min_size=1, max_size=3)))


@P.sub('reproducible', seed_case, quick=12, thorough=150)
def reproducible(c, ctx):
    """Equal generators give equal histories; the constructor takes scalar and array fields."""
    h = np.array(c['h']).reshape(c['d']) if isinstance(c['h'], list) else c['h']
    out = []
    for k in range(2):
        m = lat().Ising2D(tuple(c['d']), c['J'], h=h, rng=np.random.RandomState(c['seed']))
        r = [np.array(m.lattice)]
        same(m.h, np.zeros(c['d']) + h, 'fields')
        for n, sy in c['calls']:
            m.iterate(n, systematic=sy)
            r.append(np.array(m.lattice))
            seed(k)
        out.append(r)
    for a, b in zip(*out):
        same(a, b, 'lattices of two runs with the same generator')
    ctx.trivial(c['J'] == 0)


@st.composite
def scalar_case(draw):
    return dict(d=[draw(st.integers(30, 50)), draw(st.integers(30, 50))], h=draw(gen.smooth(1.)), seed=draw(gen.seeds), sys=draw(st.booleans()))


@P.sub('uniform_field', scalar_case, quick=12, thorough=150)
def uniform_field(c, ctx):
    """Independent spins in a uniform field, given as a number."""
    h = c['h'] or .1
    m = lat().Ising2D(tuple(c['d']), 0., h, rng=np.random.RandomState(c['seed']))
    up = int((m.lattice > 0).sum())
    binom_ok(up, m.lattice.size, .5, 'first lattice')
    m.iterate(400 * m.lattice.size, systematic=c['sys'])
    binom_ok(int((np.asarray(m.lattice) > 0).sum()), m.lattice.size, 1 / (1 + np.exp(-2 * h)), 'spins up in field %g' % h)


@st.composite
def cg_case(draw):
    f = draw(st.integers(1, 5))
    d = [draw(st.integers(f, 13)), draw(st.integers(f, 13))]
    return dict(f=f, d=d, p=draw(st.sampled_from([.5, .8, .2, 1.])), s=draw(gen.vec(d[0] * d[1], st.integers(0, 99))),
                dtype=draw(st.sampled_from(['int8', 'int64', 'int16'])))


@P.sub('coarse_grain', cg_case, quick=300, thorough=6000)
def coarse_grain(c, ctx):
    f, d = c['f'], c['d']
    L = np.where(np.array(c['s']).reshape(d) < 100 * c['p'], 1, -1).astype(c['dtype'])
    keep = L.copy()
    R = np.asarray(lat().coarse_grain(L, f))
    same(L, keep, 'the lattice (not to be changed)')
    a, b = d[0] // f, d[1] // f
    need(R.shape == (a, b), 'shape %s of blocks of %d in %s', R.shape, f, d)
    tot = np.array([[L[i * f:i * f + f, j * f:j * f + f].astype(int).sum() for j in range(b)] for i in range(a)])
    need(((R == 1) | (R == -1)).all(), 'values other than spins: %s', np.unique(R))
    same(np.where(tot == 0, 0, R), np.sign(tot), 'majority of each block')
    ctx.tag('ties', (tot == 0).any())
    ctx.tag('rest cut off', d[0] % f + d[1] % f > 0)
    ctx.trivial(f == 1)


@P.sub('ties', cases=[dict(f=2), dict(f=4)])
def ties(c, ctx):
    """Ties are broken either way."""
    L = np.indices((60 * c['f'], 60 * c['f'])).sum(0) % 2 * 2 - 1
    R = np.asarray(lat().coarse_grain(L.astype(np.int8), c['f']))
    need(((R == 1) | (R == -1)).all(), 'values other than spins')
    binom_ok(int((R > 0).sum()), R.size, .5, 'ties broken upwards')


@P.sub('rejects', cases=[dict()])
def rejects(c, ctx):
    raises(lambda: lat().Ising2D((3, 3, 3), .1), 'three dimensions')
    raises(lambda: lat().Ising2D((3,), .1), 'one dimension')
    raises(lambda: lat().Ising2D((3, 3), .1, h=np.zeros((2, 2))), 'fields of another shape')


@P.sub('large_lattices', lambda: st.fixed_dictionaries(dict(f=st.integers(1, 9), d=st.tuples(st.integers(9, 90), st.integers(9, 90)).map(list),
       p=st.sampled_from([.5, .8, .2]), seed=gen.seeds, dtype=st.sampled_from(['int8', 'int64', 'int16']), h=gen.reals(1.5), J=gen.reals(.8))), quick=60, thorough=1000)
def large_lattices(c, ctx):
    r = np.random.RandomState(c['seed'])
    d = c['d']
    L = np.where(r.rand(*d) < c['p'], 1, -1)
    coarse_grain(dict(f=c['f'], d=d, p=.5, s=np.where(L > 0, 0, 99), dtype=c['dtype']), ctx)
    if c['f'] < 4:       # sites in the middle, on an edge, in a corner
        i, j = [r.choice([0, r.randint(k), k - 1]) for k in d]
        acceptance(dict(d=d, s=L.ravel(), h=c['h'], J=c['J'], i=int(i), j=int(j), seed=c['seed']), ctx)


@P.sub('large_blocks', lambda: st.fixed_dictionaries(dict(f=st.integers(10, 260), n=st.tuples(st.integers(1, 2), st.integers(1, 3)).map(list),
       p=st.sampled_from([0., .02, .49, .5, .51, .97, 1.]), seed=gen.seeds, dtype=st.sampled_from(['int8', 'int64', 'int16']))), quick=40, thorough=800)
def large_blocks(c, ctx):
    """Blocks of any size, whose spins no longer fit a small counter."""
    r = np.random.RandomState(c['seed'])
    d = [c['f'] * k + int(r.randint(c['f'])) for k in c['n']]
    coarse_grain(dict(f=c['f'], d=d, p=.5, s=np.where(r.rand(*d) < c['p'], 0, 99).ravel(), dtype=c['dtype']), ctx)
    ctx.tag('more than 32767 spins', c['f'] > 181)
