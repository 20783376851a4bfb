"""C21: adaptive cluster expansion."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen, models, mf
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, boltzmann, entropy, subsets, raises

P = Prop('C21', 'generated data with every state present, thresholds, references and clusters; non-trivial: correlated data')


def solver(X):
    from coniii.solvers import ClusterExpansion
    return ClusterExpansion(X, model=models.ising(X.shape[1]), calc_observables=models.ising_helpers()[1], iprint=False)


@st.composite
def data(draw, lo=2, hi=4):
    n = draw(st.integers(lo, hi))
    top = draw(st.sampled_from([3, 9, 30]))
    w = draw(st.lists(st.integers(1, top), min_size=2 ** n, max_size=2 ** n))
    return dict(n=n, w=w, ref=draw(st.sampled_from(['independent', 'mean field'])), full=draw(st.booleans()))


def expand(c):
    return np.repeat(states(c['n'], True), c['w'], axis=0)


def ref_kw(c):
    return dict(meanFieldRef=c['ref'] == 'mean field', independentRef=c['ref'] == 'independent', iprint=False)


def reference(U, cluster, c):
    return (mf.mean_field if c['ref'] == 'mean field' else mf.independent)(U, cluster)


def result(s, c, T, **kw):
    r = s.solve(T, full_output=c['full'], **ref_kw(c), **kw)
    if c['full']:
        need(type(r) is tuple and len(r) == 5, 'full output is %r', type(r))
        same(r[0], s.multipliers, 'returned and stored parameters')
        return r
    same(r, s.multipliers, 'returned and stored parameters')
    return (r, None, None, None, None)


@P.sub('no_threshold', data, quick=60, thorough=1500)
def no_threshold(c, ctx):
    n, X = c['n'], expand(c)
    r, S, clusters, dS, dJ = result(solver(X.copy()), c, 0.)
    p = boltzmann(r, n)
    close(p.dot(monomials(states(n, True))), monomials(X).mean(0), 'correlations of the solution', rtol=0, atol=1e-6)
    if c['full']:
        close(S, entropy(p), 'entropy and the entropy of the solution', rtol=0, atol=1e-6)
        x, S1 = mf.maxent(mf.flat(mf.cooc((X + 1) / 2)), n)
        close(S, S1, 'entropy', rtol=0, atol=1e-6)
    ctx.tag(c['ref'])
    ctx.trivial(len(set(c['w'])) == 1)


@st.composite
def part_case(draw):
    c = draw(data(3, 4))
    c['cluster'] = draw(st.lists(st.integers(0, c['n'] - 1), min_size=2, max_size=c['n'], unique=True))
    return c


@P.sub('part_of_the_system', part_case, quick=40, thorough=800)
def part_of_the_system(c, ctx):
    """Only some of the spins are to be expanded."""
    n, X, cl = c['n'], expand(c), sorted(c['cluster'])
    r, S, clusters, dS, dJ = result(solver(X), c, 0., cluster=list(cl))
    if not c['full']:
        r = np.asarray(r)
    k = len(cl)
    th = np.concatenate([r[cl], [r[n + subsets(n, 2).index((i, j))] for i, j in itertools.combinations(cl, 2)]])
    close(boltzmann(th, k).dot(monomials(states(k, True))), monomials(X[:, cl]).mean(0), 'correlations of the chosen spins', rtol=0, atol=1e-6)
    rest = [i for i in range(n) if i not in cl] + [n + q for q, (i, j) in enumerate(subsets(n, 2)) if i not in cl or j not in cl]
    close(r[rest], np.zeros(len(rest)), 'parameters of the other spins', rtol=0, atol=1e-12)
    ctx.trivial(k == n)


@P.sub('infinite_threshold', data, quick=80, thorough=2000)
def infinite_threshold(c, ctx):
    n, X = c['n'], expand(c)
    r, S, clusters, dS, dJ = result(solver(X), c, np.inf)
    U = mf.cooc((X + 1) / 2)
    S0, J0 = reference(U, range(n), c)
    close(r, mf.to11(mf.from_matrix(J0), n), 'parameters of the reference', rtol=1e-7, atol=1e-6)
    if c['full']:
        close(S, S0, 'entropy of the reference', rtol=1e-7, atol=1e-6)
        need(all(len(v) == 0 for k, v in clusters.items() if k > 1), 'clusters beyond an infinite threshold: %s', clusters)
    if c['ref'] == 'independent':
        close(r[:n], np.arctanh(X.mean(0)), 'fields of independent spins', rtol=0, atol=1e-9)
        close(r[n:], np.zeros(len(r) - n), 'couplings of independent spins', rtol=0, atol=1e-12)
    ctx.tag(c['ref'])
    ctx.trivial(len(set(c['w'])) == 1)


class Exact:
    """Entropies and increments of all clusters, by inclusion and exclusion over exact solutions."""
    def __init__(self, U, c):
        self.U, self.c, self.S = U, c, {}

    def excess(self, cl):
        if cl not in self.S:
            x, S = mf.maxent(mf.flat(mf.restrict(self.U, cl)), len(cl))
            S0, J0 = reference(self.U, cl, self.c)
            self.S[cl] = (S - S0, mf.full(mf.to_matrix(x, len(cl)), cl, len(self.U)) - J0)
        return self.S[cl]

    def delta(self, cl):
        dS, dJ = 0., np.zeros((len(self.U),) * 2)
        for k in range(1, len(cl) + 1):
            for sub in itertools.combinations(cl, k):
                e = self.excess(sub)
                sgn = (-1) ** (len(cl) - k)
                dS, dJ = dS + sgn * e[0], dJ + sgn * e[1]
        return dS, dJ


@st.composite
def thr_case(draw):
    c = draw(data(3, 4))
    c['full'] = True
    c['T'] = draw(st.sampled_from([1e-4, 1e-3, 3e-3, 1e-2, .03, .1]))
    return c


@P.sub('threshold', thr_case, quick=60, thorough=1500)
def threshold(c, ctx):
    search(c, expand(c), c['T'], ctx)


def search(c, X, T, ctx):
    n = c['n']
    so = solver(X)
    r, S, clusters, dS, dJ = result(so, c, T)
    U = mf.cooc((X + 1) / 2)
    ex = Exact(U, c)
    S0, J0 = reference(U, range(n), c)
    sel = {(i,) for i in range(n)}
    now = sorted(sel)
    while now:
        new = []
        for a, b in itertools.combinations(now, 2):
            u = tuple(sorted(set(a) | set(b)))
            if len(u) == len(a) + 1 and u not in new:
                d = ex.delta(u)[0]
                if abs(abs(d) - T) < 1e-6 + 1e-3 * T:
                    return ctx.tag('too close to the threshold')
                if abs(d) > T:
                    new.append(u)
        sel |= set(new)
        now = new
    got = [tuple(int(i) for i in cl) for k in clusters for cl in clusters[k]]
    same(np.array(sorted(map(str, got))), np.array(sorted(map(str, sel))), 'selected clusters')
    for k in clusters:
        need(all(len(cl) == k for cl in clusters[k]), 'clusters listed under size %d: %s', k, clusters[k])
    E, J = S0, J0.copy()
    for cl in sel:
        d = ex.delta(cl)
        E, J = E + d[0], J + d[1]
    close(S, E, 'entropy: reference and increments of the selected clusters', rtol=0, atol=1e-5)
    close(r, mf.to11(mf.from_matrix(J), n), 'parameters: reference and increments of the selected clusters', rtol=1e-4, atol=1e-4)
    for cl in sorted(sel) if n > 6 else (q for k in range(1, n + 1) for q in itertools.combinations(range(n), k)):
        e, key = ex.delta(cl), so.clusterID(list(cl))
        if cl not in sel and key not in dS:
            continue
        need(key in dS and key in dJ, 'increments of %s are missing', cl)
        close(dS[key], e[0], 'increment of the entropy of %s' % (cl,), rtol=0, atol=1e-5)
        close(dJ[key], e[1], 'increment of the parameters of %s' % (cl,), rtol=1e-3, atol=1e-4)
    ctx.tag('clusters of size %d' % max(map(len, sel)))
    ctx.trivial(all(len(s_) == 1 for s_ in sel))


@st.composite
def clus_case(draw):
    c = draw(data(2, 4))
    c['cluster'] = draw(st.lists(st.integers(0, c['n'] - 1), min_size=1, max_size=c['n'], unique=True))
    c['order'] = draw(st.permutations(c['cluster']))
    c['sym'] = draw(st.booleans())
    return c


@P.sub('cluster', clus_case, quick=120, thorough=3000)
def cluster(c, ctx):
    """Entropy and increments of a single cluster."""
    n, X = c['n'], expand(c)
    s = solver(X)
    U = mf.cooc((X + 1) / 2)
    given = U + np.triu(U, 1).T if c['sym'] else U.copy()
    cl = tuple(sorted(c['cluster']))
    x, S = mf.maxent(mf.flat(mf.restrict(U, cl)), len(cl))
    J = mf.full(mf.to_matrix(x, len(cl)), cl, n)
    for analytic in (False, True):
        r = s.S(list(c['order']), given, useAnalyticResults=analytic)
        close(r[0], S, 'entropy of cluster %s (formulas: %s)' % (c['order'], analytic), rtol=0, atol=1e-6)
        close(r[1], J, 'parameters of cluster %s (formulas: %s)' % (c['order'], analytic), rtol=1e-4, atol=1e-4)
    r = s.Sindependent(list(c['order']), given)
    S0, J0 = mf.independent(U, cl)
    close(r[0], S0, 'independent entropy', rtol=0, atol=1e-10)
    close(r[1], J0, 'independent parameters', rtol=0, atol=1e-10)
    dS, dJ = {}, {}
    kw = ref_kw(c)
    kw.pop('iprint')
    order = list(c['order'])
    r = s.deltaS(order, given, dS, dJ, iprint=False, **kw)
    same(order, c['order'], 'the cluster (not to be changed)')
    ex = Exact(U, c)
    e = ex.delta(cl)
    close(r[0], e[0], 'increment of the entropy', rtol=0, atol=1e-5)
    close(r[1], e[1], 'increment of the parameters', rtol=1e-3, atol=1e-4)
    # the increments of all parts add up
    need(len(dS) == 2 ** len(cl) - 1 and set(dS) == set(dJ), 'increments of %d parts of %s', len(dS), cl)
    R = reference(U, cl, c)
    close(sum(dS.values()), S - R[0], 'sum of the increments', rtol=0, atol=1e-6)
    close(sum(dJ.values()), J - R[1], 'sum of the increments of the parameters', rtol=1e-4, atol=1e-4)
    q = s.deltaS(list(c['order'])[::-1], given, dS, dJ, iprint=False, **kw)
    same(q[0], r[0], 'increment from the dictionary')
    ctx.tag('size %d' % len(cl))
    ctx.trivial(len(cl) == 1)


@P.sub('subsets', cases=lambda tier: [dict(m=m, k=k, rev=r) for m in range(1, 8 if tier == 'quick' else 11) for k in range(0, m + 2)
                                      for r in (0, 1)], exhaustive=True)
def all_subsets(c, ctx):
    """All unique subsets of a list."""
    if 'e' not in globals():
        globals()['e'] = solver(np.array([[1, 1], [-1, 1], [1, -1], [-1, -1]]))
    s = globals()['e']
    lst = [3 * i + 1 for i in range(c['m'])]
    if c['rev']:
        lst = lst[::-1]
    keep = list(lst)
    r = s.subsets(lst, c['k'])
    same(lst, keep, 'the list (not to be changed)')
    want = sorted(itertools.combinations(sorted(lst), c['k'])) if 0 < c['k'] <= c['m'] else []
    same(np.array(sorted(tuple(sorted(v)) for v in r)), np.array(want), 'subsets of size %d of %s' % (c['k'], lst))
    for v in r:
        v.append(-1)            # no two share a list, nor with the argument
    need(all(v.count(-1) == 1 for v in r), 'subsets share lists')
    ctx.trivial(c['m'] < 2)


@st.composite
def rare_case(draw):
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(['rare', 'aligned', 'both', 'skewed']))
    w = np.ones(2 ** n, int)
    S = states(n, True)
    top = draw(st.sampled_from([200, 1000, 4000]))
    if kind == 'rare':          # most spins are hardly ever up (or down)
        w[(S == np.array(draw(gen.vec(n, st.sampled_from([-1, 1]))))).all(1)] = top
    elif kind == 'skewed':
        w = 1 + np.array(draw(gen.vec(2 ** n, st.sampled_from([0, 0, 3, 400]))))
    else:                       # spins that nearly always agree or disagree
        t = np.array(draw(gen.vec(n, st.sampled_from([-1, 1]))))
        w[(S == t).all(1)] = top
        w[(S == -t).all(1)] = top if kind == 'both' else max(2, top // 20)
    return dict(n=n, w=w.tolist(), ref=draw(st.sampled_from(['independent', 'mean field'])), full=True, kind=kind, T=draw(st.sampled_from([np.inf, 100.])))


@P.sub('extreme_data', rare_case, quick=60, thorough=1500)
def extreme_data(c, ctx):
    """The reference for rare spins and for spins that nearly always agree (its entropy may then be negative)."""
    n, X = c['n'], expand(c)
    U = mf.cooc((X + 1) / 2)
    s = solver(X)
    r, S, clusters, dS, dJ = result(s, c, c['T'])
    S0, J0 = reference(U, range(n), c)
    if c['T'] == np.inf:
        close(S, S0, 'entropy of the reference', rtol=1e-6, atol=1e-6)
        close(r, mf.to11(mf.from_matrix(J0), n), 'parameters of the reference', rtol=1e-6, atol=1e-6)
    need(all(len(v) == 0 for k, v in clusters.items() if k > 1), 'clusters beyond the threshold: %s', clusters)
    for cl in ([0], list(range(n)), [n - 1, 0]):
        r = s.Sindependent(cl, U)
        S0, J0 = mf.independent(U, cl)
        close(r[0], S0, 'independent entropy', rtol=0, atol=1e-10)
        close(r[1], J0, 'independent parameters', rtol=0, atol=1e-9)
    f = np.diag(U)
    ctx.tag('negative entropy', c['ref'] == 'mean field' and S < 0)
    ctx.tag('rarer than 5%', np.minimum(f, 1 - f).min() < .05)


@P.sub('many_spins', gen.large(8, 20, rows=400, vals=((-1, 1),), ref=st.sampled_from(['independent', 'mean field']), full=st.booleans()), quick=8, thorough=120)
def many_spins(c, ctx):
    """The reference at sizes beyond those that can be enumerated."""
    n = c['n']
    r = np.random.RandomState(c['seed'])
    X = np.vstack([gen.bulk(c, 1)[1], r.choice([-1, 1], size=(40 * n, n), p=[.4, .6])])
    U = mf.cooc((X + 1) / 2)
    r, S, clusters, dS, dJ = result(solver(X), c, np.inf)
    S0, J0 = reference(U, range(n), c)
    close(r, mf.to11(mf.from_matrix(J0), n), 'parameters of the reference', rtol=1e-6, atol=1e-6)
    if c['full']:
        close(S, S0, 'entropy of the reference', rtol=1e-6, atol=1e-6)
        same(np.array(clusters[1]), np.arange(n)[:, None], 'clusters of one spin')
        need(all(len(v) == 0 for k, v in clusters.items() if k > 1), 'clusters beyond an infinite threshold: %s', clusters)
    ctx.tag('n>12', n > 12)


@P.sub('blocks', st.fixed_dictionaries(dict(n=st.integers(9, 26), block=st.integers(2, 4), pull=st.sampled_from([.3, .5, .7]), seed=gen.seeds, ref=st.just('independent'),
                                            full=st.just(True), T=st.sampled_from([.004, .01, .03]))), quick=4, thorough=60)
def blocks(c, ctx):
    """A few of many spins depend on each other; pairs and larger clusters among those are found, and no others."""
    n = c['n']
    r = np.random.RandomState(c['seed'])
    X = r.choice([-1, 1], size=(3000, n), p=[.45, .55])
    for _ in range(2):
        ix = r.choice(n, size=c['block'], replace=False)
        lead = r.choice([-1, 1], size=len(X))
        for i in ix:
            on = r.rand(len(X)) < c['pull'] * r.uniform(.6, 1)
            X[on, i] = lead[on]
    search(c, X, c['T'], ctx)
    ctx.tag('n>20', n > 20)


@P.sub('rejects', cases=[dict()])
def rejects(c, ctx):
    s = solver(np.array([[1, 1], [-1, 1], [1, -1], [-1, -1]]))
    raises(lambda: s.solve(0., meanFieldRef=True, independentRef=True, iprint=False), 'two references')
    raises(lambda: s.S([], np.eye(2) / 2), 'empty cluster')
    raises(lambda: s.subsets([1, 1], 1), 'repeated entries')


@P.sub('default_setup', lambda: data(3, 3), quick=2, thorough=20)
def default_setup(c, ctx):
    from coniii.solvers import ClusterExpansion
    X = expand(c)
    r = ClusterExpansion(X, iprint=False).solve(0., **ref_kw(c))
    close(boltzmann(r, 3).dot(monomials(states(3, True))), monomials(X).mean(0), 'correlations of the solution', rtol=0, atol=1e-6)


@st.composite
def prior_case(draw):
    c = draw(data(2, 3))
    c['lmbda'] = draw(st.sampled_from([.01, .1, 1., 5.]))
    return c


@P.sub('prior', prior_case, quick=30, thorough=600)
def prior(c, ctx):
    """With a prior on the mean-field reference only, nothing is lost without threshold; the reference is the regularized one."""
    n, X = c['n'], expand(c)
    c = dict(c, ref='mean field', full=True)
    N = len(X)
    U = mf.cooc((X + 1) / 2)
    kw = dict(meanFieldPriorLmbda=c['lmbda'], numSamples=N)
    r, S, cl, dS, dJ = result(solver(X), c, 0., **kw)
    close(boltzmann(r, n).dot(monomials(states(n, True))), monomials(X).mean(0), 'correlations of the solution', rtol=0, atol=1e-6)
    r, S, cl, dS, dJ = result(solver(X), c, np.inf, **kw)
    S0, J0 = mf.mean_field(U, range(n), c['lmbda'] / N)
    # single spins are corrected for the reference of a single spin
    for i in range(n):
        Si, Ji = mf.mean_field(U, [i], c['lmbda'] / N)
        x, S1 = mf.maxent(mf.flat(mf.restrict(U, [i])), 1)
        S0, J0 = S0 + S1 - Si, J0 + mf.full(mf.to_matrix(x, 1), [i], n) - Ji
    close(S, S0, 'entropy of the regularized reference', rtol=0, atol=1e-6)
    close(r, mf.to11(mf.from_matrix(J0), n), 'parameters of the regularized reference', rtol=1e-6, atol=1e-6)


@st.composite
def again_case(draw):
    c = draw(data(3, 4))
    n = c['n']
    op = st.fixed_dictionaries(dict(T=st.sampled_from([0., 1e-4, 1e-3, 1e-2, 1e9]), ref=st.sampled_from(['independent', 'mean field']), full=st.booleans(),
                                    cluster=st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=2, max_size=n, unique=True))))
    return dict(n=n, w=c['w'], ops=draw(st.lists(op, min_size=2, max_size=3)))


@P.sub('solved_again', again_case, quick=30, thorough=600)
def solved_again(c, ctx):
    from vh import again
    X = expand(c)

    def go(s, o):
        kw = {} if o['cluster'] is None else dict(cluster=sorted(o['cluster']))
        r = s.solve(o['T'], full_output=o['full'], **ref_kw(o), **kw)
        if not o['full']:
            return np.asarray(r), np.asarray(s.multipliers)
        keys = sorted(r[3])
        sizes = np.array([len(r[2].get(k, ())) for k in range(1, c['n'] + 2)])
        return np.asarray(r[0]), np.asarray(s.multipliers), np.asarray(r[1]), sizes, np.array([r[3][k] for k in keys]), np.array([r[4][k] for k in keys])
    again.check(lambda: solver(X.copy()), c['ops'], go, 'cluster expansion')
    ctx.trivial(len(set(c['w'])) == 1)
