"""C03: over any history, mask, parts and every view of the channels agree; data is untouched."""
from hypothesis import strategies as st

from core import Sub
import gens
import packmodel

RULE = ('A case is a pack (0 to 2500 elements, numeric, text, bool, object channels) and a history of '
        'up to 12 operations on it (mask assignment, &=, startstop, duration, mindur, mask_reset, '
        'nof, replacing data, append_pack); after every operation the mask, the parts and every view '
        'of the channels are compared with a reference model. Non-trivial: after some operation the '
        'mask holds both True and False elements.')

cases = st.fixed_dictionaries({
    'n': gens.lengths,
    'cols': packmodel.cols(),
    'ops': packmodel.history(['mask', 'mask', 'and', 'or', 'expr', 'startstop', 'startstop',
                              'duration', 'duration', 'mindur', 'reset', 'nof', 'nof', 'data',
                              'setcol', 'append', 'chanmask', 'chanmask'])})


def check(case, cov):
    d = packmodel.Driver(case)
    d.observe('new pack')
    big = d.model.n > 120
    mixed = False
    for i, op in enumerate(case['ops']):
        what = 'op %d %s' % (i, op[0])
        d.apply(op, what)
        d.observe(what, full=not big or i == len(case['ops']) - 1)
        mixed = mixed or len(set(d.model.mask)) == 2
    for t in d.tags:
        cov.tag(t)
    cov.tagif(big, 'more than 120 elements')
    cov.tagif(len(gens.runs_of(d.model.mask)) > 1, 'ends with several parts')
    return mixed


SUBS = [Sub('history', cases, check, 4000, rule=RULE)]
