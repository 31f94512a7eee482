"""First-order solution after Villemot (2011), written from the paper.

Notation: the Jacobian J of the model at the steady state has one column per
(variable, period) pair; `ix` knows which column belongs to which pair.
"""
import numpy as np
import scipy.linalg

import pynare.utils.numpy as unp
from pynare.errors import ModelIdentificationError


def rotated_jacobian(model):
    ix = model.indexes
    J = model.jacobian.array
    ns = ix.static_timed[0]
    if ns.size:
        Q, R = np.linalg.qr(J[:, ns], mode='complete')
        if np.linalg.matrix_rank(R) != ix.n_static:
            raise ModelIdentificationError()
        return Q.T @ J
    return J


def structural_form(model):
    """Matrices D and E of equation (8): D [y-_t; y+_{t+1}] = E [y-_{t-1}; y+_t]"""
    ix = model.indexes
    A = rotated_jacobian(model)
    nd, nm, nb, nf = ix.n_dynamic, ix.n_mixed, ix.n_backward, ix.n_forward
    Ap = A[-nd:, ix.dr.forward_timed[1]]
    Am = A[-nd:, ix.dr.backward_timed[-1]]
    A0p = A[-nd:, ix.dr.forward_timed[0]]
    A0m = A[-nd:, ix.dr.pure_backward_timed[0]]
    if A0m.size == 0:
        A0m = np.zeros((nd, nm))
    if nm > 0:
        k = ix.n_endog - (nf + ix.n_static)
        if k:
            A0m = np.hstack((A0m, np.zeros((nd, nm))))
            Im = np.eye(nm, nb, k=k)
        else:
            Im = np.eye(nm, nb)
        D = np.vstack((np.hstack((A0m, Ap)), np.hstack((Im, np.zeros((nm, nf))))))
        E = np.vstack((np.hstack((-Am, -A0p)), np.hstack((np.zeros((nm, nb)), np.eye(nm, nf)))))
        return D, E, A
    return np.hstack((A0m, Ap)), -np.hstack((Am, A0p)), A


def generalized_schur(model):
    """Ordered so that the stable eigenvalues come first; partitioned at the
    first explosive one."""
    D, E, A = structural_form(model)
    S, T, alpha, beta, Q, Z = scipy.linalg.ordqz(E, D, sort='iuc')
    eigen = alpha / beta
    explosive = (np.abs(eigen) > 1) | np.isinf(eigen)
    if explosive.any():
        k = unp.find_first(explosive)
    else:
        k = len(eigen)
    W = Z.T
    return dict(
        jacobian=A, lhs=D, rhs=E,
        eigen=eigen,
        zarrays=(W[:k, :k], W[:k, k:], W[k:, :k], W[k:, k:]),
        larrays=(T[:k, :k], T[:k, k:], T[k:, k:]),
        rarrays=(S[:k, :k], S[:k, k:], S[k:, k:]))


def blanchard_kahn(model):
    state = model.statespace
    m = np.abs(state.eigen)
    if np.sum((m > 1) | np.isinf(m)) != model.indexes.n_forward:
        raise ModelIdentificationError()
    Z22 = state.zarrays[3]
    if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
        raise ModelIdentificationError()


def shingle(gym, gyp, n_mixed):
    return np.vstack((gym, gyp[n_mixed:]))


def first_order(model):
    ix, state = model.indexes, model.statespace
    blanchard_kahn(model)
    A = state.jacobian
    Z11, Z12, Z21, Z22 = state.zarrays
    T11, S11 = state.larrays.T_11, state.rarrays.S_11

    # dynamic variables (section 4.1)
    gyp = -np.linalg.inv(Z22) @ Z21
    gym = Z11.T @ np.linalg.inv(T11) @ S11 @ np.linalg.inv(Z11.T)
    gyd = shingle(gym, gyp, ix.n_mixed)

    # static variables (section 4.2)
    s = ix.n_static
    llx = ix.dr.llx
    cols = llx[1, ~(np.isnan(llx[0, :]) & np.isnan(llx[2, :]))]
    A0d = A[:s, cols[~np.isnan(cols)]]
    rhs = A[:s, ix.dr.forward_timed[1]] @ gyp @ gym + A0d @ gyd + A[:s, ix.dr.backward_timed[-1]]
    gys = -np.linalg.inv(A[:s, ix.dr.static_timed[0]]) @ rhs

    # shocks (section 5)
    M = np.hstack((
        A[:, ix.dr.static_timed[0]],
        A[:, ix.dr.forward_timed[1]] @ gyp + A[:, ix.dr.backward_timed[0]],
        A[:, ix.dr.pure_forward_timed[0]]))
    gu = -np.linalg.inv(M) @ A[:, ix.exogenous_jacobian]
    return np.vstack((gys, gyd)), gu
