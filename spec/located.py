"""Variables found by name."""
import numpy as np

from pynare.core.variables import DetermVar, EndogVar, ModelVar, StochVar, VarArray


def made(kind, names):
    if kind == 'endog':
        return [EndogVar(n) for n in names]
    if kind == 'stoch':
        return [StochVar(n) for n in names]
    if kind == 'determ':
        return [DetermVar(n) for n in names]
    return [ModelVar(n) for n in names]


def array(kind, names):
    return VarArray(made(kind, names))


def found(kind, names, key):
    return array(kind, names).get_loc(key)


def found_all(kind, names, keys):
    r = array(kind, names).get_loc(keys)
    return [r[i] for i in range(len(keys))]


def found_by_variable(kind, names, key):
    return array(kind, names).get_loc(made(kind, [key])[0])


def found_by_variables(kind, names, keys):
    r = array(kind, names).get_loc(made(kind, keys))
    return [r[i] for i in range(len(keys))]


def found_by_both(kind, names, keys):
    given = [k if i % 2 else made(kind, [k])[0] for i, k in enumerate(keys)]
    r = array(kind, names).get_loc(given)
    return [r[i] for i in range(len(keys))]


def found_by_array(kind, names, keys):
    r = array(kind, names).get_loc(array(kind, keys))
    return [r[i] for i in range(len(keys))]


def contained(kind, names, key):
    a = array(kind, names)
    return (key in a, made(kind, [key])[0] in a, key not in a)


def contained_others(kind, names):
    return (3 in array(kind, names), None in array(kind, names))


def described(kind, names):
    a = array(kind, names)
    return (len(a), [a.names[i] for i in range(len(names))], [a[i].name for i in range(len(names))], a.vtype)


def taken(kind, names, keys):
    a = array(kind, names)
    r = a[a.get_loc(keys)]
    return (len(r), [r.names[i] for i in range(len(keys))], [r[i].name for i in range(len(keys))], r.vtype)


def rearranged(kind, names, places):
    r = array(kind, names)[places]
    return (len(r), [r.names[i] for i in range(len(places))], [r[i].name for i in range(len(places))], r.vtype,
            [r.get_loc(r.names[i]) for i in range(len(places))])


def joined(kind, names, others):
    r = VarArray([*array(kind, names), *array(kind, others)])
    return (len(r), [r.names[i] for i in range(len(names) + len(others))], r.vtype, [r.get_loc(n) for n in others])


def mixed(kind, names, other, others):
    return VarArray(made(kind, names) + made(other, others))


def strange(kind, names, thing):
    return VarArray(made(kind, names) + [thing])


def nameless(thing):
    return ModelVar(thing).name


def group(model, which):
    r = getattr(model, which)
    return [r[i].name for i in range(len(r))], [r.names[i] for i in range(len(r))]


def values(model, which):
    r = getattr(model, which)
    return [r[i] for i in range(len(model.endog))], [v.name for v in model.endog]


def shocks(model):
    return [(s.name, s.variance) for s in model.stoch], [(d.name, d.periods, d.values) for d in model.determ], [v.name for v in model.exog]
