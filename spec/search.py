"""The steady state of a model, as searched for."""


class Found:
    """What a search ends with: described by the problem that it solved."""

    def __init__(self, objective, start, method, options):
        self.x = [objective, start, method, options]
        self.fun = ['least value', objective, start, method, options]
        self.success = ['success', objective, start, method, options]


def squares(residuals):
    return sum([r * r for r in residuals])


def compute(model, args, options):
    return model.ss.compute(*args, **options)


def values(model, args, options):
    return model.ss.values


def results(model, args, options):
    r = model.ss.results
    return [r.x, r.fun, r.success]


def computed_values(model, args, options):
    ss = model.ss
    a = ss.compute(*args, **options)
    return [a, ss.values, ss.results.x, ss.results.fun, ss.values]


def computed_again(model, args, options):
    ss = model.ss
    before = ss.values
    ss.compute(*args, **options)
    return [before, ss.values, ss.results.x]


def computed_back(model, args, options):
    ss = model.ss
    ss.compute(*args, **options)
    ss.compute()
    return [ss.values, ss.results.x, ss.results.success]


def kept(model, args, options):
    """A search that could not start leaves what was found before."""
    ss = model.ss
    before = ss.results
    try:
        ss.compute('no such algorithm')
    except KeyError:
        pass
    return [before.x, ss.values, ss.results.x]


def unsearched(model, args, options):
    """A search that could not start before any other."""
    ss = model.ss
    try:
        ss.compute('no such algorithm')
    except KeyError:
        pass
    return [ss.values, ss.results.x]


def refused(model, args, options):
    ss = model.ss
    try:
        ss.compute(*args, **options)
    except KeyError:
        return 'KeyError'
    return ss.values


def separate(model, args, options):
    """Searches of a model and of its copy."""
    ss, other = model.ss, model.copy().ss
    other.compute(*args, **options)
    return [ss.values, other.values]


def sees_compute(f):
    return f.x


def sees_values(f):
    return f.x


def sees_results(f):
    return [f.x, f.fun, f.success]


def sees_computed_values(f):
    return [f.x, f.x, f.x, f.fun, f.x]


def sees_computed_again(f, usual):
    return [usual.x, f.x, f.x]


def sees_computed_back(f, usual):
    return [usual.x, usual.x, usual.success]


def sees_kept(f):
    return [f.x, f.x, f.x]


def sees_unsearched(f):
    return [f.x, f.x]


def sees_refused(f):
    return 'KeyError'


def sees_separate(f, usual):
    return [usual.x, f.x]


def plus(a, b):
    return a + b


def minus(a, b):
    return a - b


def times(a, b):
    return a * b


def table(*pairs):
    return dict(pairs)
