"""Second-order approximation of the policy function (perturbation around the
deterministic steady state), written from the implicit function theorem.

With f(y-_{t-1}, y_t, y+_{t+1}, u_t) = 0 the derivatives of the policy function
g(x, u, s) satisfy

    A gxx + C gxx (gy_x (x) gy_x) = - H (zx (x) zx)
    A gxu + C gxx (gy_x (x) gu_x) = - H (zx (x) zu)
    A guu + C gxx (gu_x (x) gu_x) = - H (zu (x) zu)

with A = df/dy + df/dy+ gy+ on the columns of the states, C = df/dy+ and H the
matrix of second derivatives; z stacks the derivatives of the arguments of f.
"""
import numpy as np
import scipy.linalg

import pynare.utils.numpy as unp


def columns(model):
    """Jacobian columns of every period in decision-rule order, and of all
    arguments of the model."""
    ix = model.indexes
    llx = ix.dr.llx
    edr = llx[~np.isnan(llx)]
    dr = np.concatenate((edr, len(edr) + np.arange(ix.n_exog)))
    return llx[1, :], llx[2, :], dr


def hessian(model):
    """Second derivatives with both arguments in decision-rule order."""
    cont, fore, dr = columns(model)
    sq = np.arange(len(dr) ** 2).reshape(len(dr), len(dr))
    return model.hessian.array[:, sq[np.ix_(dr, dr)].flatten()]


def states(model):
    ix = model.indexes
    return np.arange(ix.n_static, ix.n_static + ix.n_state)


def system(model, gy):
    ix = model.indexes
    cont, fore, dr = columns(model)
    x = states(model)
    J = model.jacobian.array
    f0 = J[:, cont[~np.isnan(cont)]]
    fp = J[:, fore[~np.isnan(fore)]]

    A = np.zeros((ix.n_endog, ix.n_endog))
    A[:, ~np.isnan(cont)] = f0
    A[:, x] += fp @ gy[~np.isnan(fore)]
    C = np.zeros((ix.n_endog, ix.n_endog))
    C[:, ~np.isnan(fore)] = fp
    return A, C


def z_x(model, gy):
    ix = model.indexes
    cont, fore, dr = columns(model)
    return np.concatenate((
        np.eye(ix.n_state),
        gy[~np.isnan(cont)],
        gy[~np.isnan(fore)] @ gy[states(model)],
        np.zeros((ix.n_exog, ix.n_state))))


def z_u(model, gy, gu):
    ix = model.indexes
    cont, fore, dr = columns(model)
    x = states(model)
    nt, ne = ix.n_state, ix.n_exog
    return np.concatenate((
        np.zeros((nt, ne)),
        gu[~np.isnan(cont)],
        np.reshape(gy[~np.isnan(fore)], (-1, nt)) @ np.reshape(gu[x], (nt, ne)),
        np.eye(ne)))


def u_states(model, gu):
    """One row per state, one column per shock."""
    x = states(model)
    return np.reshape(gu[x], (np.size(x), -1))


def gxx(model, gy, gu):
    ix = model.indexes
    A, C = system(model, gy)
    zx = z_x(model, gy)
    x = states(model)
    K = np.kron(gy[x], gy[x])
    return unp.generalized_sylvester(A, np.eye(ix.n_state ** 2), C, K.T, -(hessian(model) @ np.kron(zx, zx)))


def ghxx(model, gy, gu):
    return gxx(model, gy, gu) / 2


def ghxu(model, gy, gu, gxx):
    A, C = system(model, gy)
    x = states(model)
    rhs = -hessian(model) @ np.kron(z_x(model, gy), z_u(model, gy, gu)) - C @ (gxx @ np.kron(gy[x], u_states(model, gu)))
    return scipy.linalg.solve(A, rhs)


def guu(model, gy, gu, gxx):
    A, C = system(model, gy)
    zu = z_u(model, gy, gu)
    s = u_states(model, gu)
    rhs = -hessian(model) @ np.kron(zu, zu) - C @ gxx @ np.kron(s, s)
    return scipy.linalg.solve(A, rhs)


def ghuu(model, gy, gu, gxx):
    return guu(model, gy, gu, gxx) / 2


def del2(model, gy, gu, gxx):
    """Half of the derivative with respect to the variance of future shocks."""
    ix = model.indexes
    cont, fore, dr = columns(model)
    J, H = model.jacobian.array, model.hessian.array
    f = fore[~np.isnan(fore)]
    fp = J[:, f]
    sq = np.arange(len(dr) ** 2).reshape(len(dr), len(dr))
    Hff = H[:, sq[np.ix_(f, f)].flatten()]
    guf = gu[~np.isnan(fore)]
    rhs = -(fp @ guu(model, gy, gu, gxx)[~np.isnan(fore)] + Hff @ np.kron(guf, guf)) @ model.sigma.T.flatten()

    n = J.shape[0]
    nf = np.count_nonzero(~np.isnan(fore))
    gyf = np.concatenate((
        np.zeros((nf, ix.n_static)),
        gy[~np.isnan(fore)],
        np.zeros((nf, len(ix.pure_forward_timed[1])))), axis=1)
    lhs = np.zeros((n, n))
    lhs[:, ~np.isnan(cont)] = J[:, cont[~np.isnan(cont)]]
    lhs = lhs + fp @ (np.identity(n)[~np.isnan(fore)] + gyf)
    return scipy.linalg.solve(lhs, rhs) / 2
