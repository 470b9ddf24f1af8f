"""C06: the mask starts, and restarts, as all True with the length of the lowest channel."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require
import gens

RULE = ('A case is a sequence of data sets (channels of any kind, nan, None, empty strings and '
        'objects among the values, channels of unequal length too) put in one pack by the '
        'constructor, by setting data (dict, pairs, the data of another pack), by item assignment '
        'followed by mask_reset, each after some masking. Non-trivial: a data set that is put in '
        'place while the mask has False elements or another length, or that holds values that are '
        'not equal to themselves.')

dataset = st.fixed_dictionaries({
    'cols': st.lists(st.tuples(st.integers(-2, 12) | gens.keys, gens.column(gens.ALLKINDS), gens.lengths).map(
        list), max_size=4, unique_by=lambda c: c[0]),
    'n': st.one_of(st.none(), gens.lengths),       # None: unequal lengths
    'how': st.sampled_from(['dict', 'pairs', 'packdata', 'items', 'reset']),
    'mask': gens.bits,
    'masking': st.sampled_from(['mask', 'duration', 'startstop', 'none', 'huge']),
    'nof': st.sampled_from(['nan', 'filter', None]),
})
cases = st.fixed_dictionaries({'sets': st.lists(dataset, min_size=1, max_size=4)})


def arrays(ds):
    return {k: gens.build(c, ds['n'] if ds['n'] is not None else n) for k, c, n in ds['cols']}


def check(case, cov):
    pack = None
    interesting = False
    for i, ds in enumerate(case['sets']):
        what = 'set %d (%s)' % (i, ds['how'])
        with harness():
            data = arrays(ds)
            want = len(data[min(data)]) if data else 0
        if pack is None:
            pack = ChannelPack(dict(data)) if data else ChannelPack()
        else:
            interesting = interesting or len(pack.mask) != want or not all(pack.mask)
            if ds['how'] == 'dict':
                pack.data = dict(data)
            elif ds['how'] == 'pairs':
                pack.data = iter(list(data.items()))
            elif ds['how'] == 'packdata':
                pack.data = ChannelPack(dict(data)).data
            elif ds['how'] == 'items':
                pack.data.clear()
                for k in data:
                    pack.data[k] = data[k]
                pack.mask_reset()
            else:
                pack.data = dict(data)
                pack.mask_reset()
        for round_ in range(2):
            mask = pack.mask
            require(isinstance(mask, np.ndarray) and mask.dtype.kind == 'b',
                    '{}: mask is {}', what, mask)
            require(mask.tolist() == [True] * want, '{}: mask is {}, expected {} True', what,
                    mask, want)
            require(len(pack.parts()) == (1 if want else 0), '{}: parts {}', what, pack.parts())
            if data:
                low = min(data)
                require(gens.same(pack(low, nof='filter'), data[low]),
                        '{}: filtered with all True: {}', what, pack(low, nof='filter'))
                if want:
                    require(gens.same(pack(low, part=0), data[low]), '{}: the only part', what)
            if round_:
                break
            # mask something, then reset
            pack.nof = ds['nof']
            if ds['masking'] == 'mask':
                pack.mask = np.array(gens.bools(ds['mask'], want), dtype=bool)
            elif ds['masking'] == 'duration':
                pack.mask = np.array(gens.bools(ds['mask'], want), dtype=bool)
                pack.duration(3)
            elif ds['masking'] == 'huge':
                pack.duration(want + 1)
            elif ds['masking'] == 'startstop':
                pack.startstop(gens.bools(ds['mask'], want), [False] * want)
            pack.mask_reset()
        for k, a in data.items():
            odd = a.dtype.kind in 'fc' and bool(np.any(a != a))
            interesting = interesting or odd
            cov.tagif(odd, 'nan in data')
        # leave it masked for the next data set
        if ds['masking'] != 'none':
            pack.mask = np.array(gens.bools(ds['mask'], want), dtype=bool)
            cov.tagif(want and not all(pack.mask), 'masked before the next data set')
        cov.tagif(len({len(a) for a in data.values()}) > 1, 'unequal lengths')
    return interesting


SUBS = [Sub('sets', cases, check, 5000, rule=RULE)]
