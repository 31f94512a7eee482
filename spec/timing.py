"""Periods at which variables appear."""


def nowhere(names):
    return {n: set() for n in names}


def appearing(names, at):
    """`at`: pairs of a name and a period"""
    r = {n: set() for n in names}
    for n, p in at:
        if n in r:
            r[n] = r[n] | {p}
    return r


def periods_of(names, at):
    r = appearing(names, at)
    return [r[n] for n in names]
