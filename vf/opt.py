"""Independent optimization oracles: enclosing/inscribed ellipsoids and balls."""
import itertools
import math

import numpy as np

from .harness import Inconclusive


def affine_frame(P, tol=1e-9):
    """(origin, orthonormal columns spanning P - origin, rank)."""
    P = np.atleast_2d(np.asarray(P, float))
    c = P.mean(axis=0)
    U, s, Vt = np.linalg.svd(P - c, full_matrices=True)
    m = max(s.max() if len(s) else 0.0, 0.0)
    r = int(np.sum(s > tol * max(m, np.abs(P).max(), 1e-300)))
    return c, Vt[:r].T, r


def mvee_lower(P, iters=4000, gap=1e-5):
    """Lower bound on log(product of half extents) of any ellipsoid containing the
    full-dimensional points P, by Khachiyan / Wolfe-Atwood weights."""
    P = np.asarray(P, float)
    n, d = P.shape
    if d == 0:
        return 0.0
    Q = np.hstack((P, np.ones((n, 1))))
    w = np.ones(n) / n
    for _ in range(iters):
        X = Q.T @ (w[:, None] * Q)
        g = np.einsum("ij,ij->i", Q @ np.linalg.pinv(X), Q)
        i = int(np.argmax(g))
        act = np.nonzero(w > 1e-12)[0]
        j = act[int(np.argmin(g[act]))]
        up, dn = g[i] / (d + 1) - 1, 1 - g[j] / (d + 1)
        if max(up, dn) < gap:
            break
        if up >= dn:
            b = (g[i] - d - 1) / ((d + 1) * (g[i] - 1))
            w *= 1 - b
            w[i] += b
        else:
            b = (g[j] - d - 1) / ((d + 1) * (g[j] - 1)) if g[j] > 1 else -np.inf
            b = max(b, -w[j] / (1 - w[j]))
            w *= 1 - b
            w[j] = max(w[j] + b, 0.0)
    c = w @ P
    C = (P - c).T @ (w[:, None] * (P - c))
    s, ld = np.linalg.slogdet(C)
    if s <= 0:
        raise Inconclusive("singular weights")
    return 0.5 * (ld + d * math.log(d))


def minball(P):
    """Smallest enclosing ball by enumeration of support sets (few points)."""
    P = np.unique(np.asarray(P, float), axis=0)
    n, d = P.shape
    best = (np.inf, None)
    c0 = P.mean(axis=0)
    s = max(np.abs(P - c0).max(), 1e-300)
    W = (P - c0) / s
    for k in range(1, min(n, d + 1) + 1):
        for idx in itertools.combinations(range(n), k):
            S = W[list(idx)]
            A = S[1:] - S[0]
            if k > 1:
                G = A @ A.T
                if np.linalg.cond(G) > 1e12:
                    continue
                c = S[0] + A.T @ np.linalg.solve(G, 0.5 * np.diag(G))
            else:
                c = S[0]
            r = np.linalg.norm(S[0] - c)
            if r < best[0] and np.linalg.norm(W - c, axis=1).max() <= r * (1 + 1e-9) + 1e-12:
                best = (r, c)
    return best[0] * s, best[1] * s + c0


def minball_many(P, start=0):
    """Smallest enclosing ball of many points: grow a support set (LP-type iteration)."""
    P = np.asarray(P, float)
    S = P[[int(np.argmax(np.linalg.norm(P - P[start], axis=1)))]]
    for _ in range(200):
        r, c = minball(S)
        d = np.linalg.norm(P - c, axis=1)
        i = int(np.argmax(d))
        if d[i] <= r * (1 + 1e-9) + 1e-300:
            return r, c
        k = np.linalg.norm(S - c, axis=1) >= r * (1 - 1e-9)
        S = np.vstack((S[k], P[i]))
    return r, c


def ball_max(M, q):
    """max over |y| <= 1 of |M y + q| (and a maximizer), exactly."""
    M, q = np.atleast_2d(M), np.asarray(q, float)
    H, g = M.T @ M, M.T @ q
    lam, V = np.linalg.eigh(H)
    gt = V.T @ g
    n = len(lam)
    top = lam[-1]
    s = max(top, np.abs(gt).max(), 1e-300)
    hard = np.abs(lam - top) <= 1e-12 * s
    if np.abs(gt[hard]).max() <= 1e-11 * s:
        y = np.zeros(n)
        rest = ~hard
        y[rest] = gt[rest] / (top - lam[rest])
        ny = np.linalg.norm(y)
        if ny <= 1:
            y[np.nonzero(hard)[0][0]] = math.sqrt(max(1 - ny ** 2, 0))
            y = V @ y
            return float(np.linalg.norm(M @ y + q)), y
    lo, hi = top, top + np.linalg.norm(gt) + 1e-300
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid <= top:
            break
        if np.linalg.norm(gt / (mid - lam)) > 1:
            lo = mid
        else:
            hi = mid
    y = gt / np.where(hi - lam > 0, hi - lam, 1e-300)
    y = V @ (y / max(np.linalg.norm(y), 1e-300))
    return float(np.linalg.norm(M @ y + q)), y


def mie_upper(A, b, B0, c0):
    """Upper bound on log det B of any inscribed ellipsoid {By + c} of {Ax <= b},
    certified by John weights found near the candidate (B0, c0)."""
    from scipy.optimize import nnls
    A = np.asarray(A, float)
    d = A.shape[1]
    N = A @ B0
    ln = np.linalg.norm(N, axis=1)
    U = N / ln[:, None]
    beta = (b - A @ c0) / ln
    iu = np.triu_indices(d)
    rows, rhs = [], []
    for u in U.T:
        rows.append(u)
        rhs.append(0.0)
    for i, j in zip(*iu):
        rows.append(U[:, i] * U[:, j])
        rhs.append(1.0 if i == j else 0.0)
    best = np.inf
    for pen in (1e-1, 1e-2, 1e-3, 1.0):
        K = np.vstack((np.array(rows), pen * np.diag(np.abs(beta - 1))))
        lam, _ = nnls(K, np.concatenate((rhs, np.zeros(len(beta)))), maxiter=50 * len(beta))
        M = (U * lam[:, None]).T @ U
        # residual of sum lam u = 0 costs at most |res| * |c - c0| (in the frame of E);
        # a feasible centre lies in the polyhedron, within R of c0
        R = 2 * d * max(beta.max(), 1.0)
        res = np.linalg.norm(U.T @ lam)
        s, ld = np.linalg.slogdet(M)
        if s <= 0:
            continue
        best = min(best, d * math.log((lam @ beta + res * R) / d) - ld)
    return best + np.linalg.slogdet(B0)[1]


def chebyshev(A, b):
    """Largest ball inside {Ax <= b}: (radius, centre)."""
    from scipy.optimize import linprog
    ln = np.linalg.norm(A, axis=1)
    d = A.shape[1]
    r = linprog(np.append(np.zeros(d), -1.0), A_ub=np.hstack((A, ln[:, None])), b_ub=b,
                bounds=[(None, None)] * d + [(0, None)], method="highs")
    if r.status != 0:
        raise Inconclusive("linprog")
    return float(r.x[-1]), r.x[:-1]
