"""C06: changing between the {0,1} and {-1,1} bases describes the same distribution."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, raises, states, energy, monomials, boltzmann, subsets, nparams, Mismatch

P = Prop('C06', 'generated parameters of order 1 to 4 and distributions or samples for n up to 7; '
         'non-trivial: n > 1 and not all parameters zero')


@st.composite
def pairwise(draw):
    n = draw(st.integers(2, 7))
    th = draw(gen.theta(n, 3.))
    part = draw(st.sampled_from(['all', 'all', 'no fields', 'no couplings']))
    th = [0.] * n + th[n:] if part == 'no fields' else th[:n] + [0.] * (len(th) - n) if part == 'no couplings' else th
    return dict(n=n, theta=th, to=draw(st.sampled_from(['01', '11'])),
                mat=draw(st.booleans()))


def constant_gap(n, a, order, b, what, to):
    """a lives in the source basis, b in the target basis `to`: energies differ by a constant."""
    s01, s11 = states(n), states(n, True)
    src, dst = (s11, s01) if to == '01' else (s01, s11)
    d = energy(src, a, order) - energy(dst, b, order)
    spread = d.max() - d.min()
    need(spread < 1e-8 * (1 + np.abs(d).max()), '%s: energies differ by an amount that varies by %.3g', what, spread)


@P.sub('pairwise', pairwise, quick=600, thorough=20000)
def pairwise_(case, ctx):
    from coniii.utils import convert_params, vec2mat
    n, to = case['n'], case['to']
    th = np.array(case['theta'])
    h, J = th[:n].copy(), th[n:].copy()
    Jin = vec2mat(th, separate_fields=True)[1] if case['mat'] else J.copy()
    keep = Jin.copy()
    c = convert_params(h, Jin, to, concat=True)
    constant_gap(n, th, 2, c, 'convert_params', to)
    hp, Jp = convert_params(h, Jin, to)
    close(np.concatenate([hp, Jp]), c, 'separate and concatenated results', rtol=0, atol=0)
    back = convert_params(hp, Jp, '11' if to == '01' else '01', concat=True)
    close(back, th, 'round trip', rtol=1e-9, atol=1e-9)
    close(Jin, keep, 'the given couplings', rtol=0, atol=0)
    close(h, th[:n], 'the given fields', rtol=0, atol=0)
    raises(lambda: convert_params(h, J, '10'), 'an unknown basis')
    ctx.trivial(not np.any(th))
    ctx.tag('matrix', case['mat'])
    ctx.tag('to ' + to)


@st.composite
def general(draw):
    n = draw(st.integers(1, 6))
    order = draw(st.integers(1, min(n, 6)))
    return dict(n=n, order=order, theta=draw(gen.theta(n, 2., order)), to=draw(st.sampled_from(['01', '11'])))


@P.sub('any_order', general, quick=500, thorough=10000)
def any_order(case, ctx):
    from coniii.utils import ising_convert_params, split_concat_params, convert_params
    n, order, to = case['n'], case['order'], case['to']
    th = np.array(case['theta'])
    parts = tuple(split_concat_params(th, n))
    c = ising_convert_params(parts, to, concat=True)
    need(len(c) == len(th), '%d parameters instead of %d', len(c), len(th))
    constant_gap(n, th, order, c, 'ising_convert_params', to)
    pieces = ising_convert_params(parts, to)
    need(len(pieces) == order, '%d orders instead of %d', len(pieces), order)
    close(np.concatenate(pieces), c, 'separate and concatenated results', rtol=0, atol=0)
    back = ising_convert_params(tuple(pieces), '11' if to == '01' else '01', concat=True)
    close(back, th, 'round trip', rtol=1e-9, atol=1e-9)
    if order == 2:
        close(convert_params(th[:n], th[n:], to, concat=True), c, 'convert_params and ising_convert_params',
              rtol=1e-9, atol=1e-9)
    raises(lambda: ising_convert_params(parts, '10'), 'an unknown basis')
    ctx.trivial(n < 2 or not np.any(th))
    ctx.tag('order %d' % order)


@st.composite
def distribution(draw):
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(['weights', 'sample', 'numbers']))
    if kind == 'weights':
        w = draw(gen.vec(2**n, st.integers(0, 20)))
        return dict(n=n, kind=kind, w=w if sum(w) else [1] * 2**n)
    if kind == 'sample':
        return dict(n=n, kind=kind, X=draw(gen.sample(n, 1, 15)))
    return dict(n=n, kind=kind, c=draw(gen.theta(n, 1.)))


@P.sub('correlations', distribution, quick=600, thorough=20000)
def correlations(case, ctx):
    from coniii.utils import convert_corr
    n = case['n']
    if case['kind'] == 'numbers':
        # the maps are affine, so they have to be inverse to each other for any numbers
        c = np.array(case['c'])
        for a, b in (('01', '11'), ('11', '01')):
            x = convert_corr(c[:n], c[n:], a)
            close(convert_corr(x[0], x[1], b, concat=True), c, 'round trip', rtol=1e-9, atol=1e-9)
        return
    if case['kind'] == 'weights':
        p = np.array(case['w'], float)
        p /= p.sum()
        S11 = states(n, True)
    else:
        S11 = np.array(case['X'])
        p = np.ones(len(S11)) / len(S11)
    S01 = (S11 + 1) // 2
    c11, c01 = p.dot(monomials(S11)), p.dot(monomials(S01))
    for to, src, dst in (('01', c11, c01), ('11', c01, c11)):
        got = convert_corr(src[:n].copy(), src[n:].copy(), to, concat=True)
        close(got, dst, 'convert_corr to ' + to, rtol=1e-9, atol=1e-10)
        a, b = convert_corr(src[:n].copy(), src[n:].copy(), convert_to=to)
        close(np.concatenate([a, b]), got, 'separate and concatenated results', rtol=0, atol=0)
        got = convert_corr(src[:n].copy(), src[n:].copy(), convertTo=to, concat=True)
        close(got, dst, 'convert_corr with the old keyword', rtol=1e-9, atol=1e-10)
    raises(lambda: convert_corr(c11[:n], c11[n:], '10'), 'an unknown basis')
    raises(lambda: convert_corr(c11[:n], c11[n:], '11', basis=3), 'an unknown keyword')
    ctx.tag(case['kind'])
    ctx.trivial(len(set(map(tuple, S11.tolist()))) < 2)


@P.sub('same_distribution', pairwise, quick=300, thorough=5000)
def same_distribution(case, ctx):
    """End to end: probabilities and converted correlations agree between the two bases."""
    from coniii.utils import convert_params, convert_corr
    n = case['n']
    th = np.array(case['theta'])
    c = convert_params(th[:n], th[n:], '01', concat=True)
    p11, p01 = boltzmann(th, n, True), boltzmann(c, n, False)
    close(p01, p11, 'probabilities', rtol=1e-7, atol=1e-12)
    m11 = p11.dot(monomials(states(n, True)))
    m01 = p01.dot(monomials(states(n)))
    close(convert_corr(m11[:n], m11[n:], '01', concat=True), m01, 'correlations', rtol=1e-7, atol=1e-9)
    ctx.trivial(not np.any(th))


@P.sub('many_spins', gen.large(8, 70, to=st.sampled_from(['01', '11']), order=st.sampled_from([2, 2, 2, 3, 4]), mat=st.booleans()),
       quick=80, thorough=1500)
def many_spins(case, ctx):
    """Beyond what can be enumerated: energies of random states differ by a constant, and the way back restores everything."""
    from coniii.utils import convert_params, ising_convert_params, split_concat_params, vec2mat, convert_corr
    order, to = case['order'], case['to']
    case = dict(case, n=min(case['n'], {2: 70, 3: 24, 4: 16}[order]), vals=[0, 1])
    n = case['n']
    back = '11' if to == '01' else '01'
    th, S = gen.bulk(case, nparams(n, order), 40)
    a, b = (2 * S - 1, S) if to == '01' else (S, 2 * S - 1)
    conv = [('ising_convert_params', lambda t, to: ising_convert_params(tuple(split_concat_params(t, n)), to, concat=True))]
    if order == 2:
        J = lambda t: vec2mat(t, separate_fields=True)[1] if case['mat'] else t[n:].copy()
        conv.append(('convert_params', lambda t, to: convert_params(t[:n].copy(), J(t), to, concat=True)))
    for name, f in conv:
        c = f(th, to)
        d = energy(a, th, order) - energy(b, c, order)
        need(d.max() - d.min() < 1e-9 * (1 + np.abs(th).sum()), '%s: energies differ by an amount that varies by %.3g', name, d.max() - d.min())
        close(f(c, back), th, name + ': round trip', rtol=1e-8, atol=1e-8 * (1 + np.abs(th).sum()))
    m11, m01 = monomials(2 * S - 1).mean(0), monomials(S).mean(0)
    close(convert_corr(m11[:n], m11[n:], '01', concat=True), m01, 'correlations to 01', atol=1e-9)
    close(convert_corr(m01[:n], m01[n:], '11', concat=True), m11, 'correlations to 11', atol=1e-9)
    ctx.tag('order %d' % order)
    ctx.tag('n>30', n > 30)
