"""Moments of linear state spaces x' = A x + B u, y = C x + D u."""
import numpy as np
import scipy.linalg


def transition(model, gy, gu):
    x = model.indexes.dr.state
    return gy[x], gu[x]


def state_variance(A, B, sigma):
    """V = A V A' + B sigma B'"""
    return scipy.linalg.solve_discrete_lyapunov(A, B @ sigma @ B.T)


def state_space_sigma(model, gy, gu):
    A, B = transition(model, gy, gu)
    return state_variance(A, B, model.sigma)


def observation(model, gy, gu):
    dc = model.indexes.dc_order
    return gy[dc], gu[dc]


def cov(model, gy, gu):
    C, D = observation(model, gy, gu)
    V = model.statespace.sigma
    return C @ V @ C.T + D @ model.sigma @ D.T


def var(model, gy, gu):
    return np.diag(cov(model, gy, gu))


def std(model, gy, gu):
    return np.sqrt(np.diag(cov(model, gy, gu)))


def corr(model, gy, gu):
    c = cov(model, gy, gu)
    s = np.sqrt(np.diag(c))
    return c / np.outer(s, s)


def autocov(model, gy, gu, p):
    """Entry i: covariance of y_{t+1+i} with y_t"""
    C, D = observation(model, gy, gu)
    A, B = model.statespace.kalman_transition
    lead = A @ model.statespace.sigma @ C.T + B @ model.sigma @ D.T
    n = C.shape[0]
    out = np.empty((p, n, n))
    for i in range(p):
        out[i, :, :] = C @ lead
        lead = A @ lead
    return out


def autocorr(model, gy, gu, p):
    s = std(model, gy, gu)
    return autocov(model, gy, gu, p) / np.outer(s, s)


def mean_first(model, gy, gu):
    return model.ss.values


def mean_second(model, gy, gu, ghxx, ghxu, ghuu, del2):
    """Kim, Kim, Schaumburg and Sims (2008); the second-order arrays include
    the half of the expansion"""
    x = model.indexes.dr.state
    V = model.statespace.sigma.flatten()
    S = model.sigma.flatten()
    A, B = model.statespace.kalman_transition
    drift = del2[x] + ghxx[x] @ V + ghuu[x] @ S
    Ex = scipy.linalg.solve(np.eye(A.shape[0], A.shape[1]) - A, drift)
    adjust = gy @ Ex + del2 + ghxx @ V + ghuu @ S
    return model.ss.values + adjust[model.indexes.dc_order]


def decomposition(model, gy, gu):
    """Share of the variance of each variable that each orthogonalised shock
    accounts for"""
    C, D = observation(model, gy, gu)
    A, B = model.statespace.kalman_transition
    L = scipy.linalg.cholesky(model.sigma + 1e-12 * np.eye(model.sigma.shape[0], model.sigma.shape[1]), lower=True)
    BL, DL = B @ L, D @ L
    n, m = len(model.endog), len(model.stoch)
    parts = np.empty((n, m))
    for j in range(m):
        V = scipy.linalg.solve_discrete_lyapunov(A, np.outer(BL[:, j], BL[:, j]))
        parts[:, j] = np.abs(np.diag(C @ V @ C.T + np.outer(DL[:, j], DL[:, j])))
    return parts / np.sum(parts, axis=1)[:, np.newaxis]


def positions(names, wanted):
    """Where the wanted names are; raises a ValueError if one is not there"""
    return [np.where(names == w)[0].item() for w in ([wanted] if isinstance(wanted, str) else wanted)]


def selected(model, gy, gu, endog, stoch):
    if len(model.stoch) == 1:
        shares = np.ones((len(model.endog), 1))
        if stoch:
            shares = shares[:, positions(model.stoch.names, stoch)]
        if endog:
            return shares[positions(model.endog.names, endog)]
        return shares
    shares = decomposition(model, gy, gu)
    if endog and stoch:
        return shares[np.ix_(positions(model.endog.names, endog), positions(model.stoch.names, stoch))]
    if endog:
        return shares[positions(model.endog.names, endog)]
    if stoch:
        return shares[:, positions(model.stoch.names, stoch)]
    return shares
