"""Reference for the {0,1} conventions of the mean-field and cluster modules: matrices with fields on the diagonal,
E(x) = sum_i J_ii x_i + sum_{i != j} J_ij x_i x_j, p = exp(-E)/Z."""
import numpy as np
from .oracle import states, monomials, nparams, softmax, entropy, subsets


def newton(f, x):
    """Maximum of a concave function by damped Newton steps."""
    v, g, H = f(x)
    for _ in range(200):
        if np.abs(g).max() < 1e-11 * max(1, abs(v)):
            break
        step = -np.linalg.lstsq(H, g, rcond=None)[0]
        t = 1.
        while t > 1e-6:
            w = f(x + t * step)
            if w[0] >= v + 1e-4 * t * g.dot(step) - 1e-12 * abs(v):
                break
            t /= 2
        x = x + t * step
        v, g, H = w
    return x, H


def maxent(C, n):
    """Parameters (minus energy, over {0,1}) and entropy of the pairwise maximum entropy model with correlations C."""
    M = monomials(states(n, False))

    def f(x):
        a = M.dot(x)
        mx = a.max()
        w = np.exp(a - mx)
        Z = w.sum()
        p = w / Z
        m = p.dot(M)
        return x.dot(C) - np.log(Z) - mx, C - m, -(M * p[:, None]).T.dot(M) + np.outer(m, m)
    m = np.clip(C[:n], 1e-9, 1 - 1e-9)
    x, _ = newton(f, np.concatenate([np.log(m / (1 - m)), np.zeros(nparams(n) - n)]))
    return x, entropy(softmax(M.dot(x)))


def cooc(X01):
    """Upper triangular matrix of frequencies and pair frequencies."""
    X = np.asarray(X01, float)
    return np.triu(X.T.dot(X) / len(X))


def flat(U):
    """Frequencies, then pair frequencies in parameter order."""
    n = len(U)
    return np.concatenate([np.diag(U), [U[i, j] if i < j else U[j, i] for i, j in subsets(n, 2)]])


def restrict(U, cluster):
    c = sorted(cluster)
    S = np.triu(U) + np.triu(U, 1).T
    return np.triu(S[np.ix_(c, c)])


def to_matrix(x, n):
    """Minus-energy parameters over {0,1} as the matrix of the module."""
    J = np.diag(-x[:n])
    for k, (i, j) in enumerate(subsets(n, 2)):
        J[i, j] = J[j, i] = -x[n + k] / 2
    return J


def from_matrix(J):
    n = len(J)
    return np.concatenate([-np.diag(J), [-(J[i, j] + J[j, i]) for i, j in subsets(n, 2)]])


def to11(x, n):
    """Minus-energy parameters over {0,1} as those over {-1,1}."""
    h, J = x[:n] / 2., x[n:] / 4.
    h = h.copy()
    for k, (i, j) in enumerate(subsets(n, 2)):
        h[i] += J[k]
        h[j] += J[k]
    return np.concatenate([h, J])


def full(J, cluster, N):
    F = np.zeros((N, N))
    c = sorted(cluster)
    F[np.ix_(c, c)] = J
    return F


def independent(U, cluster):
    """Entropy and parameters of independent spins."""
    f = np.diag(restrict(U, cluster))
    S = -(f * np.log(f) + (1 - f) * np.log(1 - f)).sum()
    return S, full(np.diag(-np.log(f / (1 - f))), cluster, len(U))


def mean_field(U, cluster, gamma=0.):
    """Entropy and parameters of the (regularized) mean-field approximation, Cocco & Monasson eqs. 30-33."""
    R = restrict(U, cluster)
    R = R + np.triu(R, 1).T
    f = np.diag(R).copy()
    v = f * (1 - f)
    c = R - np.outer(f, f)
    s = np.sqrt(np.outer(v, v))
    M = c / s
    if gamma:
        mq, vq = np.linalg.eigh(M)
        mh = .5 * (mq - gamma + np.sqrt((mq - gamma) ** 2 + 4 * gamma + (0j if gamma < 0 else 0.)))
        inv = (vq / mh).dot(vq.T)
        S = .5 * (np.log(mh) + 1 - mh).sum()
    else:
        inv = np.linalg.inv(M)
        S = .5 * np.linalg.slogdet(M)[1]
    J = inv / s
    np.fill_diagonal(J, 0)
    n = len(f)
    h = -np.log(f / (1 - f))
    for i in range(n):
        for j in range(n):
            if j != i:
                h[i] += J[i, j] * (c[i, j] * (f[i] - .5) / v[i] - f[j])
    S += -(f * np.log(f) + (1 - f) * np.log(1 - f)).sum()
    return S, full(np.diag(h) + J / 2, cluster, len(U))
