#!/usr/bin/env python3
"""Writes known-findings.json: repaired defects (which suppress nothing) and
recorded ones."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = '''
P02 fcbbff4 a unary operator was applied to the whole following product: 6 / -2 * 3 was 6 / (-(2 * 3))
P03 82109d6 tokens after the end of an expression, and function calls repeated in a row, were dropped silently: '2 3' was 2
P04 96e277e a multi-line comment ended at the first '*', a comment after it was lexed as code, open comments looped for ever
P03 68a5173 a token that starts neither a declaration nor an assignment before the model block made the parser loop for ever
P10 c9f1bab a model without a shocks block raised 'No visit_NoneType method'
P10 3371727 the histval block of a model was the endval block, or raised a NameError without one
P07 3b8b906 ill-formed models raised an AttributeError instead of the error that describes the problem
P21 4bd48c4 the one half of the second-order expansion was applied twice in simulated paths and means: (r*x)^2/4 for y = exp(x)
P21 31b586b second-order simulation with one state and one shock raised a ValueError
P20 3c48508 second-order solutions with one shock or one state raised a ValueError or took an inner product
P27 c7414ea np.in1d is gone from numpy: the solution summaries raised an AttributeError
P27 724a719 the state-shock columns of the second-order summary were not in the order of their labels
P27 870a3be the summaries showed large negative coefficients as below the display threshold
P27 3b5218c the autocorrelation summary labelled lag 1 as p = 0 and called itself autocovariance
P17 7bee965 a lead or lag of two periods was stored in the column of another timing: x(-2) was x(+1)
P17 7e36330 a variable with an offset of zero, x(0), was not the variable at the current period
P18 64f18d2 eigenvalues were partitioned by their signed (or real) value instead of their modulus, and models without explosive ones failed
P20 2092c97 second-order solutions of models without forward-looking variables failed
P18 e744c6d models that violate the Blanchard-Kahn conditions were solved
P18 ea67e54 a rejected model was solved when solving was tried again
P18 a47bb6e an unidentified model raised a NameError instead of the identification error
P19 efc71e1 the state space of models without purely backward variables had the wrong shape
P15 f00b818 variables never seen at time t were left out of their class, and the static variable at index zero of the count
P14 b7d8889 calibrations changed the definitions handed in by the caller, and the shared default
P13 1e1b42f a copied model lost its local parameters
P12 59e91d7 an altered model kept its old solution
P26 02efaa8 an undefined name in the error for the number of occbin constraints
P12 a0ef54d adding variables to a model lost the names of its variables
P22 142e6f2 looking up several names at once failed
P11 79fcf2f correlations of shocks whose own declaration has no variance raised a TypeError
P29 5d9aed5 models could not be created from pathlib paths
P25 4988108 unknown or repeated shocks were ignored by the variance decomposition of a model with one shock
P04 f8e5538 all appearances of a reserved word shared the location of the last one: errors at a keyword named another line
P14 38e462a a model defined from the equations of another model (exprs=other.exprs) shared its list of equations: adding one to either changed both
'''
fixed = []
for l in FIXED.strip().splitlines():
    p, c, w = l.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (p, c, w))
known = []
for a in ('correlated', 'covarying'):
    for b in ('correlated', 'covarying'):
        known.append(dict(
            property='P11', key='3 shocks, variance e; variance u; variance v; %s e,u; %s e,v: block' % (a, b),
            what='a shock named first in two pairs of a shocks block (%s e,u and %s e,v) keeps only the pair declared last: '
                 'DynareModelFactory.visit_ShocksBlock stores one partner for each shock' % (a, b)))
json.dump(dict(known=known, fixed=fixed), open(os.path.join(HERE, 'known-findings.json'), 'w'), indent=1)
