"""Which units decide which property, and what is trusted."""
import re as _re
from . import unit as _u
from . import units_cv, units_table
from . import units_tree, units_score, units_query, units_infer, \
    units_conv, units_eval, units_map, units_viz, units_cluster, units_pre
try:
    from . import units_misc
except ImportError as e:
    if 'units_misc' not in str(e):
        raise

QUICK_SECONDS = 20
COST = {'tree.learn.cobweb': 20, 'tree.learn.cobweb3': 20,
        'tree.learn.trestle': 20, 'score.real.split.cobweb': 9,
        'score.real.split.cobweb3': 9,
        'table.exact_match.cobweb3': 9, 'table.update_scales': 8,
        'table.ecg.cobweb3.on': 7, 'table.sanity.cobweb3': 6,
        'table.sanity.cobweb': 6, 'pre.standardizer._undo': 30,
        'pre.flattener._flatten.inner': 20}
RULE = ('run-time side: every case builds random inputs/histories from its '
        'seed; non-trivial means it reached the property with non-empty data '
        '(per property rule in harness/), distinct by content')
TRUSTED = [
    'z3 (python binding) as the deciding solver',
    'sympy: equality of two rational functions after z3 gave up; the '
    'denominators are proved non-zero by z3',
    'pyvc: extraction (ast of the working tree), symbolic execution, loop '
    'summary rules and finite-sum lemmas, implemented in /verif/pyvc',
    'CPython semantics of dict, list, set, tuple, str and isinstance as '
    'encoded in pyvc/interp.py and pyvc/loop.py',
]
ASSUMPTIONS = [
    'python int and float are treated as mathematical reals (no rounding, no '
    'overflow, no nan/inf inside summaries)',
    'equal values used as attribute names or values are interchangeable '
    '(1, 1.0 and True are not mixed within one attribute)',
    'math.sqrt/exp/log/pi are the mathematical functions; c4n_table entries '
    'are compared with the gamma formula to 1e-8',
]

# the numeric-summary contracts the table units call
CV = ['cv.init', 'cv.update', 'cv.combine', 'cv.copy', 'cv.lemma',
      'utils.isNumber']
CVSTD = CV + ['cv.unbiased_mean', 'cv.unbiased_std', 'cv.scaled_unbiased_std',
              'cv.scaled_unbiased_mean', 'cv.std_view', 'utils.c4']
FRAMED = ('table.ecg', 'table.probability', 'table.predict',
          'table.weighted', 'table.exact_match', 'table.sanity',
          'table.update_from', 'score.')
EXTRA = {
    'C04': [n for n in _u.UNITS if n.startswith(FRAMED)],
    'C16': [n for n in _u.UNITS if n.startswith(
        ('table.probability', 'table.predict'))],
    'C01': CV + ['cv.combine.other', 'cv.combine.self'],
    'C03': CV,
    'C06': CVSTD + ['table.get_inner_attr'],
    'C07': CVSTD + ['cv.scaled_biased_std', 'cv.overlap',
                    'table.get_inner_attr'],
    'C09': ['cv.unbiased_mean', 'utils.isNumber'],
    'C10': ['utils.isNumber', 'cv.unbiased_mean', 'cv.unbiased_std',
            'cv.std_view', 'utils.c4'],
    'C15': CV,
}
ABOUT = {
    'C01': ('the whole-tree statement on random fit histories of the three '
            'learners', []),
    'C02': ('link consistency and derived queries on random fit histories',
            []),
    'C03': ('root totals and returned leaf on random fit histories', []),
    'C04': ('deep snapshots around every question on random trees', []),
    'C05': ('agreement in floating point with batch statistics on random '
            'data, orders and groupings',
            ['the number of values of a summary is a whole number '
             '(c4n_table is total on 2..29)']),
    'C06': ('probabilities of real trees against a recount', []),
    'C07': ('scores of real trees against a direct computation', []),
    'C08': ('hypothetical scores against really performed operators', []),
    'C09': ('predictions and inference on random trees', []),
    'C10': ('leaf contents on random fit histories', []),
    'C11': ('defective and valid instances on random trees', []),
    'C12': ('mappings of random structured instances', []),
    'C13': ('round trips of random structured instances', []),
    'C14': ('clusterings of random data sets', []),
    'C15': ('scales against a recount on random histories', []),
    'C16': ('recorded evaluation runs', []),
    'C17': ('converters on random instances', []),
    'C18': ('exports of random trees', []),
}


# obligations that speak about some of the properties of their unit only
# (first match decides; an obligation matched by none counts for all)
FRAME = ('nothing (else )?change|untouched|unchanged|stays? as|changes nothing'
         '|no concept, link|is a new instance|is modified|no numeric summary '
         'is shared|stay as they were')
OWN = [
    (r'^tree\.fit', r'every total', 'C03'),
    (r'^tree\.fit', r"caller's list", 'C11'),
    (r'^query\.(depth|num_con|is_parent)', FRAME, 'C04'),
    (r'^query\.(depth|num_con|is_parent)', '', 'C02 C14'),
    (r'^query\.shallow', '', 'C04 C08'),
    (r'^tree\.', r'scales', 'C15 C11'),
    (r'^tree\.', r'checked first|rejected instance', 'C11'),
    (r'^tree\.', r'leaf groups identical', 'C10'),
    (r'^tree\.', r'leaves', 'C03 C10 C01'),
    (r'^tree\.', r'root count|root table|returns a|leaf recorded|progress|'
     'sizes', 'C03'),
    (r'^tree\.', r'(counts|tables) are the sum', 'C01'),
    (r'^tree\.', r'every internal concept', 'C02'),
    (r'^query\.categorize', r'was checked|flattened', 'C11 C16'),
    (r'^query\.categorize', r'answers|descent|progress', 'C09 C16'),
    (r'^query\.infer', 'answer is a new instance', 'C09 C04'),
    (r'^query\.', FRAME, 'C04 C11 C16'),
    (r'^query\.', '', 'C09'),
    (r'', r'(^|: )(%s)' % FRAME, '*'),
    (r'', FRAME, '*'),
]


def relevant(p, unit, ob):
    """does this obligation speak about property p?"""
    for u, o, ps in OWN:
        if _re.search(u, unit) and _re.search(o, ob):
            return ps == '*' or p in ps.split()
    if p == 'C04' or (p == 'C16' and unit.startswith('table.')):
        return False
    return True


def units_of(p):
    own = [n for n in _u.UNITS if p in _u.UNITS[n][1]]
    return own + [n for n in EXTRA.get(p, []) if n in _u.UNITS
                  and n not in own]


PROPS = {}
for _p in sorted(ABOUT):
    _us = units_of(_p)
    PROPS[_p] = dict(level='proof' if _us else 'exploration', units=_us,
                     bounded=ABOUT[_p][0], assumptions=ABOUT[_p][1])
