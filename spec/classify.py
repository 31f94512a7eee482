"""Which variables are static, backward-looking, mixed and forward-looking.

An incidence array has one row per period (t-1, t, t+1) and one column per
endogenous variable; it holds the Jacobian column of the variable in that
period, or nan."""
import numpy as np
from pynare.errors import EndogIndexError


def lagged(llx):
    return ~np.isnan(llx[0])


def led(llx):
    return ~np.isnan(llx[2])


def static_mask(llx):
    return ~lagged(llx) & ~led(llx)


def dynamic_mask(llx):
    return lagged(llx) | led(llx)


def pure_backward_mask(llx):
    return lagged(llx) & ~led(llx)


def mixed_mask(llx):
    return lagged(llx) & led(llx)


def pure_forward_mask(llx):
    return ~lagged(llx) & led(llx)


def cont_mask(llx):
    return ~np.isnan(llx[1])


def positions(mask):
    return np.where(mask)[0]


def state(llx):
    return positions(lagged(llx))


def backward(llx):
    return positions(lagged(llx))


def forward(llx):
    return positions(led(llx))


def static(llx):
    return positions(static_mask(llx))


def dynamic(llx):
    return positions(dynamic_mask(llx))


def pure_backward(llx):
    return positions(pure_backward_mask(llx))


def mixed(llx):
    return positions(mixed_mask(llx))


def pure_forward(llx):
    return positions(pure_forward_mask(llx))


def cont(llx):
    return positions(cont_mask(llx))


def columns(llx, mask, period):
    """The Jacobian columns, in one period, of the variables that occur in it"""
    c = llx[period + 1, mask]
    return c[~np.isnan(c)].astype(int)


def state_timed(llx, period):
    return columns(llx, lagged(llx), period)


def backward_timed(llx, period):
    return columns(llx, lagged(llx), period)


def forward_timed(llx, period):
    return columns(llx, led(llx), period)


def static_timed(llx, period):
    return columns(llx, static_mask(llx), period)


def dynamic_timed(llx, period):
    return columns(llx, dynamic_mask(llx), period)


def pure_backward_timed(llx, period):
    return columns(llx, pure_backward_mask(llx), period)


def mixed_timed(llx, period):
    return columns(llx, mixed_mask(llx), period)


def pure_forward_timed(llx, period):
    return columns(llx, pure_forward_mask(llx), period)


def cont_timed(llx, period):
    return columns(llx, cont_mask(llx), period)


def dr_order(llx):
    """Static, purely backward, mixed, purely forward variables"""
    return np.concatenate((static(llx), pure_backward(llx), mixed(llx), pure_forward(llx)))


def dc_order(llx):
    """Back from the decision-rule order to the order of declaration"""
    return np.argsort(dr_order(llx))


def n_static(llx):
    return np.count_nonzero(static_mask(llx))


def n_forward(llx):
    return np.count_nonzero(led(llx))


def n_backward(llx):
    return np.count_nonzero(lagged(llx))


def n_state(llx):
    return np.count_nonzero(lagged(llx))


def n_mixed(llx):
    return np.count_nonzero(mixed_mask(llx))


def n_endog(llx):
    return llx.shape[1]


def n_dynamic(llx):
    return llx.shape[1] - n_static(llx)


def reordered(llx):
    return llx[:, dr_order(llx)]


# ---------------------------------------------------------------- building

def incidence(endog):
    """Numbers the occurrences (t-1 first, then t, then t+1, each in the order of
    declaration)"""
    llx = np.full((3, len(endog)), np.nan)
    for i, v in enumerate(endog):
        seen = tuple(sorted(v.lead_lag))
        if not seen or min(seen) < -1 or max(seen) > 1:
            raise EndogIndexError()
        llx[np.array(list(seen)) + 1, i] = 1
    n = int(np.nansum(llx))
    llx[llx == 1] = np.arange(n)
    return llx


def exogenous_jacobian(endog, stoch):
    """The shocks come after all occurrences of endogenous variables"""
    llx = np.full((3, len(endog)), np.nan)
    for i, v in enumerate(endog):
        seen = tuple(sorted(v.lead_lag))
        if not seen or min(seen) < -1 or max(seen) > 1:
            raise EndogIndexError()
        llx[np.array(list(seen)) + 1, i] = 1
    n = int(np.nansum(llx))
    return np.arange(n, n + len(stoch))


def dr_incidence(endog):
    llx = incidence(endog)
    return llx[:, dr_order(llx)]


def named_vars(model, kind):
    return model.endog[getattr(model.indexes, kind)]


def dc_state(endog):
    return state(incidence(endog))


def declared(endog):
    return {v.name: i for i, v in enumerate(endog)}


def stated_incidence(llx, ne):
    n = int(np.count_nonzero(~np.isnan(llx)))
    return llx, np.arange(n, n + ne), n, ne


def stated_orders(llx):
    return dr_order(llx), dc_order(llx)


def stated_counts(llx):
    return n_static(llx), n_forward(llx), n_backward(llx), n_mixed(llx), n_dynamic(llx), n_state(llx), n_endog(llx)


def stated_positions(llx):
    return (state(llx), cont(llx), static(llx), dynamic(llx), forward(llx), pure_forward(llx), backward(llx), pure_backward(llx), mixed(llx))


def stated_reordered(llx):
    return (reordered(llx),)


def stated_columns(llx):
    return tuple([columns(llx, m, p) for m in (lagged(llx), cont_mask(llx), static_mask(llx), dynamic_mask(llx), led(llx), pure_forward_mask(llx), lagged(llx),
                                         pure_backward_mask(llx), mixed_mask(llx)) for p in (-1, 0, 1)])


def stated_dr_positions(llx):
    return stated_positions(reordered(llx))


def stated_dr_columns(llx):
    return stated_columns(reordered(llx))
