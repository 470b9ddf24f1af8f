"""C04: startstop is the start/stop trigger state machine, stop dominating, anded into the mask."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require
import gens
import packmodel

RULE = ('A case is a pack with a generated mask and up to 4 startstop calls, the triggers being '
        'sequences of bools, numbers, strings or nan (tested for truth), dense or sparse, up to '
        'thousands of elements, overlapping or not. The result is compared with the recurrence '
        'on = (on or start) and not stop, the mask with old mask AND result. Non-trivial: a result '
        'with both True and False elements.')

TRUE = {'bool': True, 'int': 3, 'float': 0.5, 'nan': float('nan'), 'str': 'x', 'np': np.bool_(True),
        'list': [0]}
FALSE = {'bool': False, 'int': 0, 'float': 0.0, 'nan': 0.0, 'str': '', 'np': np.bool_(False),
         'list': []}
elements = st.sampled_from(['bool', 'bool', 'int', 'float', 'nan', 'str', 'np', 'list', 'mix'])
form = st.sampled_from(['arr', 'list', 'tuple'])
call = st.fixed_dictionaries({
    'start': gens.bits, 'stop': gens.bits, 'el': elements, 'form': form,
    'apply': st.sampled_from([True, True, True, False, None]),
    'same': st.sampled_from([False] * 9 + [True]),       # one object as both triggers
    'from': st.sampled_from([False, False, True]),       # triggers computed from a channel
    'cut': st.sampled_from([0, 0, 0, 0, 1, 3]),
})
cases = st.fixed_dictionaries({
    'n': gens.lengths, 'mask': st.one_of(st.none(), gens.mask_spec),
    'vals': st.lists(st.integers(0, 5), min_size=1, max_size=20),
    'calls': st.lists(call, min_size=1, max_size=4)})


def trigger(vals, el, form):
    names = sorted(TRUE)
    seq = []
    for i, v in enumerate(vals):
        kind = names[i % len(names)] if el == 'mix' else el
        seq.append((TRUE if v else FALSE)[kind])
    if form == 'arr' and el in ('bool', 'int', 'float', 'nan', 'str', 'np'):
        return np.array(seq)
    return tuple(seq) if form == 'tuple' else seq


def check(case, cov):
    with harness():
        n = case['n']
        height = [case['vals'][i % len(case['vals'])] for i in range(n)]
        pack = ChannelPack({0: np.array(height, dtype=int)})
        mask = [True] * n
        if case['mask']:
            mask = gens.bools(case['mask'], n)
    if case['mask']:
        pack.mask = np.array(mask, dtype=bool)
    mixed = False
    for i, c in enumerate(case['calls']):
        what = 'call %d' % i
        with harness():
            if c['from']:
                hi, lo = max(height or [0]), min(height or [0])
                av, bv = [h == hi for h in height], [h == lo for h in height]
            else:
                av, bv = gens.bools(c['start'], n), gens.bools(c['stop'], n)
            if c['same']:
                bv = av
            if c['apply'] is False and c['cut']:
                bv = bv[:-c['cut']]
            a = trigger(av, c['el'], c['form'])
            b = a if bv is av else trigger(bv, c['el'], c['form'])
            want = packmodel.startstop_ref(av, bv)
        if c['from'] and not c['same'] and not (c['apply'] is False and c['cut']):
            a, b = pack(0, nof='ignore') == hi, pack(0, nof='ignore') == lo
        if c['apply'] is None:
            got = pack.startstop(a, b)
        else:
            got = pack.startstop(a, b, apply=c['apply'])
        require(isinstance(got, np.ndarray) and got.dtype.kind == 'b',
                '{}: the result is no bool array: {}', what, got)
        require(got.tolist() == want, '{}: startstop gave {}, expected {}', what, got.tolist(),
                want)
        if c['apply'] is not False:
            mask = [p and q for p, q in zip(mask, want)]
        require(pack.mask.tolist() == mask, '{}: mask is {}, expected {}', what,
                pack.mask.tolist(), mask)
        require(len(pack.parts()) == len(gens.runs_of(mask)), '{}: {} parts', what, pack.parts())
        # the result is the caller's own
        got[:] = False
        require(pack.mask.tolist() == mask, '{}: altering the result altered the mask', what)
        require(pack(0, nof='ignore').tolist() == height, '{}: data altered', what)
        mixed = mixed or len(set(want)) == 2
        cov.tagif(any(p and q for p, q in zip(av, bv)), 'start and stop at once')
        cov.tagif(len(gens.runs_of(want)) > 1, 'several True sections')
    cov.tagif(n > 120, 'more than 120 elements')
    cov.tagif(n == 0, 'no elements')
    return mixed


SUBS = [Sub('triggers', cases, check, 10000, rule=RULE)]
