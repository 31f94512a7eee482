"""Covariances of shocks."""
import numpy as np


def covariance(names, defs):
    """`defs`: kind, shock, other shock, number"""
    n = len(names)
    var = {}
    for kind, a, b, m in defs:
        if kind == 'variance':
            var[a] = m
        elif kind == 'stderr':
            var[a] = m ** 2
    r = np.zeros((n, n))
    for i in range(n):
        if names[i] in var:
            r[i, i] = var[names[i]]
    for kind, a, b, m in defs:
        if kind == 'covarying' or kind == 'correlated':
            i = names.index(a)
            j = names.index(b)
            c = m
            if kind == 'correlated':
                c = m * np.sqrt(r[i, i] * r[j, j])
            r[i, j] = c
            r[j, i] = c
    return r
