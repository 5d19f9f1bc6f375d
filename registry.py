"""The properties and what decides them."""
import importlib

COMMON_TRUST = [
    'pyvc: the symbolic execution engine and its normal form (this repository, checked by concrete cross runs)',
    'models of the numpy/scipy operations the code calls (pyvc/npm.py), stated over mathematical reals',
    'CPython executes the real functions; z3 decides index conditions',
]
REALS = 'floating point is treated as exact real arithmetic (the concrete cross checks use floats)'


class Prop(object):
    level = 'proof'
    budget = 420
    budget_thorough = 3000
    limit = 60
    cross = 1
    rtc_budget = 120
    rtc_note = ''
    technique = 'contracts on the real functions, discharged function by function by symbolic execution (pyvc) and z3'
    note = ''
    bounds = ''
    assumptions = (REALS,)
    trusted = tuple(COMMON_TRUST)

    def __init__(self, pid, obligations=None, rtc=None, **kw):
        self.id = pid
        self._obs, self._rtc = obligations, rtc
        self.__dict__.update(kw)

    def obligations(self, tier):
        for spec in self._obs or ():
            mod, fn = spec.split(':')
            yield from getattr(importlib.import_module('contracts.' + mod), fn)(tier)

    def rtc(self, tier, seed):
        for spec in self._rtc or ():
            mod, fn = spec.split(':')
            yield from getattr(importlib.import_module('rtc.' + mod), fn)(tier, seed)


TENSOR_BOUND = ('axis layouts enumerated up to two axes per derivative and value group and one '
                '(C03: two) extra axes; sizes and values unbounded')

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, **kw):
    PROPS[pid] = kw


TN = ('Every obligation is discharged for all sizes and all values, one per layout of the operands; '
      'the number of axes per group is bounded. Trusts the pyvc engine, its numpy models, real arithmetic.')
prop('C01', obligations=['tensors:c01'], bounds=TENSOR_BOUND, note=TN)
prop('C02', obligations=['tensors:c02'], bounds=TENSOR_BOUND, note=TN)
prop('C03', obligations=['tensors:c03'], bounds=TENSOR_BOUND, note=TN)

FN = ('Parameters of any size and value (axes per group bounded, see bounds). Trusts the pyvc engine, its models '
      'of numpy/scipy, real arithmetic; logarithms are taken of positive terms.')
CN = ('Inductive step over the tree of combinations: the parts are arbitrary functions known by their contract, for all '
      'sizes and values; shapes of trees and maps are enumerated and drawn with a fixed seed (bounded). Trusts the pyvc '
      'engine, its numpy models, real arithmetic; obligations the normal form cannot close fall back to concrete runs, '
      'reported as bounded.')
FUNC_BOUND = 'parameters of up to three axes; Poisson/binomial sizes symbolic and 1, 2, 3'
COMB_BOUND = ('up to 3 parameters of up to 2 axes, values of up to 3 axes and 2 extra axes, up to 3 parts per node, '
              'nesting up to 3; enumerated for one part, drawn at random (fixed seed) for several')
LN = ('The loops are cut with their invariants (pyvc/loops.py): any size and number of steps. ' + FN)
prop('C04', obligations=['elem:c04'], note=FN, bounds=FUNC_BOUND)
prop('C05', obligations=['tennis:c05'], note=FN, bounds='parameters of up to one axis (two and three: see the known finding)')
prop('C06', obligations=['mats:c06'], note=LN, bounds='models of any size, number of steps and skew; parameters of up to two axes')
prop('C07', obligations=['comb:c07'], note=CN, bounds=COMB_BOUND)
prop('C08', obligations=['elem:c08', 'comb:c08', 'mats:c08', 'tennis:c08'], note=CN, bounds=COMB_BOUND)
prop('C09', obligations=['comb:c09'], note=CN, bounds=COMB_BOUND)

LB = ('values of one and two axes (finite models: one and two outcome axes), one and two parameters, derivatives as '
      'full, diagonal, absent, missing or sums of tensors; sizes and values unbounded')
prop('C10', obligations=['likes:c10'], note=FN, bounds=LB)
prop('C11', obligations=['likes:c11'], note=FN, bounds=LB)

FB_ = ('one to three parameters of up to two axes, of any size, with any fixed entries (also none, and all)')
prop('C12', obligations=['fit:c12'], note=FN, bounds=FB_)
prop('C18', obligations=['fit:c18'], note=FN + ' The inverse of a matrix (numpy.linalg.inv, scipy.linalg.pinvh of an invertible matrix) is an assumed contract.', bounds=FB_ + '; up to three constraints')
prop('C13', obligations=['fit:c13'], note=FN, bounds=FB_)
prop('C14', obligations=['fit:c14'], note=FN, bounds=FB_ + '; up to two penalties and three constraints')
prop('C15', obligations=['copulas:c15'], note=FN, bounds='up to two leading axes')
prop('C16', obligations=['rates:c16'], note=FN, bounds='none')

prop('C17', obligations=['prep:c17'], note='Any number of observations, any labels among those of the levels, any values and weights; the sets of labels are concrete. Assumes the contracts of the pandas operations stated in contracts/prep.py, cross-checked on real tables.', bounds='label sets: 1 to 3 levels of at most 3 labels; the number of observations, their labels and values, and the number of columns are not bounded')

prop('C19', obligations=['frame:c19'], budget=500,
     note='Frame conditions: the obligations of the other properties executed once more, each outermost call recorded with what its '
          'operands and results hold before, after and at the end (arrays by the identity of the element function that owns the memory); '
          'where a call touched the state of a function or module, its repetition has to give the same; histories of one function at two '
          'points against fresh objects; refusal of every assignment to tensors and parameters. Given untouched operands and state the code '
          'is taken to be deterministic. Trusts the pyvc engine and its numpy models (which of them return views).',
     bounds='the layouts, parameter shapes and trees of the obligations of C01-C18 (a fixed share of them in the quick tier, all in the '
            'thorough one); sizes and values unbounded; whole fits, pandas tables and Markov chains of more than one step by runs of the real code')


def load(pid):
    return Prop(pid, **PROPS[pid])
