"""Simulated paths of solved models."""
import numpy as np
import scipy.linalg


def shock_paths(model, shocks, periods):
    """Innovations with the covariance of the model, one row per period: a
    factor of the covariance matrix times independent unit shocks."""
    factor = scipy.linalg.cholesky(model.sigma)
    if shocks is None:
        shocks = np.random.normal(size=(periods, len(model.stoch)))
    return shocks @ factor


def start(model, init):
    return model.ss.values if init is None else init


def first(model, gy, gu, shocks, periods, init):
    """y_t = ybar + gy (x_{t-1} - xbar) + gu u_t, the states being endogenous
    variables; the shock of row t-1 hits in period t"""
    ybar = model.ss.values
    u = shock_paths(model, shocks, periods)
    T = u.shape[0]
    dr = model.indexes.dr_order
    x = dr[model.indexes.dr.state]
    paths = np.zeros((T, len(ybar)))
    paths[0, :] = start(model, init) - ybar
    innov = u @ gu.T
    for t in range(1, T):
        paths[t, dr] = gy @ paths[t - 1, x] + innov[t - 1, :]
    return paths + ybar


def first_of_one(model, gy, gu, shocks, periods, init):
    """a single state is a number, and its policy matrix a vector"""
    ybar = model.ss.values
    u = shock_paths(model, shocks, periods)
    T = u.shape[0]
    dr = model.indexes.dr_order
    x = dr[model.indexes.dr.state[0]]
    paths = np.zeros((T, len(ybar)))
    paths[0, :] = start(model, init) - ybar
    innov = u @ gu.T
    for t in range(1, T):
        paths[t, dr] = gy @ paths[t - 1, x] + innov[t - 1, :]
    return paths + ybar


def second(model, gy, gu, ghxx, ghxu, ghuu, del2, shocks, periods, init):
    ybar = model.ss.values
    u = shock_paths(model, shocks, periods)
    T = u.shape[0]
    dr = model.indexes.dr_order
    x = dr[model.indexes.dr.state]
    paths = np.zeros((T, len(ybar)))
    paths[0, :] = start(model, init)
    for t in range(1, T):
        s = paths[t - 1, x] - ybar[x]
        e = u[t - 1, :]
        paths[t, dr] = ((del2 + ybar[dr]) + gy @ s + gu @ e + ghxx @ np.kron(s, s)
                        + ghuu @ np.kron(e, e) + ghxu @ np.kron(s, e))
    return paths


def one_period(model, exog, periods, size):
    """`size` standard deviations of the shock `exog` in the first period"""
    if exog is None:
        i = 0
    else:
        i = model.stoch.get_loc(exog)
    shocks = np.zeros((periods, len(model.stoch)))
    shocks[0, i] = size
    return shocks


def impulse_first(model, gy, gu, exog, periods, size):
    return first(model, gy, gu, one_period(model, exog, periods, size), 200, None) - model.ss.values


def impulse_second(model, gy, gu, ghxx, ghxu, ghuu, del2, exog, periods, size):
    u = one_period(model, exog, periods, size)
    return second(model, gy, gu, ghxx, ghxu, ghuu, del2, u, 200, None) - model.ss.values

