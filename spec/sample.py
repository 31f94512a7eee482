"""Moments of a simulated path (rows are periods, columns variables)."""
import numpy as np
import pandas as pd


def kept(paths, drop):
    """The periods after the first `drop`"""
    if drop < 0 or drop > paths.shape[0]:
        raise ValueError()
    return paths[drop:]


def corr(model, paths, drop):
    y = kept(paths, drop)
    d = y - np.mean(y, axis=0)
    s = np.std(y, axis=0)
    c = d.T @ d / y.shape[0] / np.outer(s, s)
    names = model.endog.names
    return pd.DataFrame(c, index=names, columns=names)


def autocorr(model, paths, p, drop):
    """Column k-1: covariance of y_t and y_{t-k}, relative to the variance"""
    y = kept(paths, drop)
    T = y.shape[0]
    if p > T:
        raise ValueError()
    d = y - np.mean(y, axis=0)
    v = np.var(y, axis=0)
    out = np.full((y.shape[1], p), np.nan)
    for k in range(1, p + 1):
        out[:, k - 1] = np.einsum('ij, ij->j', d[k:, :], d[:-k, :]) / (T - k) / v
    return pd.DataFrame(out, index=model.endog.names, columns=['k_%d' % (k + 1) for k in range(p)])
