"""C34: a pack printed and evaluated, deep copied or pickled is that pack again, and independent."""
import copy
import datetime
import pickle
import sys

import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require
import gens

RULE = ('A case is a pack of generated channels (every type) and names, with attributes set and a mask, and a history '
        'of operations done to the pack and to one copy of it alike, while another copy is left alone. Its repr is '
        'evaluated with numpy printing in full. Non-trivial: two or more channels with elements, a name, and a mask '
        'that is not all True or at least one operation.')

ops = st.one_of(
    st.tuples(st.sampled_from(['mask', 'startstop', 'poke']), gens.bits).map(list),
    st.tuples(st.just('duration'), st.integers(0, 5)).map(list),
    st.tuples(st.just('nof'), st.sampled_from(['nan', 'filter', None])).map(list),
    st.tuples(st.just('mindur'), st.sampled_from([None, 1, 2, 3])).map(list),
    st.tuples(st.sampled_from(['fn', 'rename']), st.sampled_from(['a.txt', 'b c', ''])).map(list),
    st.tuples(st.just('prefix'), gens.prefixes).map(list),
    st.tuples(st.sampled_from(['reset', 'append', 'drop', 'reverse', 'selfappend'])).map(list),
)
cases = st.fixed_dictionaries({
    'n': st.one_of(st.just(0), st.integers(1, 25), gens.lengths),
    'cols': st.lists(st.tuples(gens.keys | st.integers(-3, -1), gens.column(gens.ALLKINDS)).map(list), min_size=1, max_size=5,
                     unique_by=lambda c: c[0]),
    'names': st.lists(st.tuples(gens.keys, gens.names_any | st.sampled_from(["it's", '"', '{0}', '{}', '%s', '}', '\\'])
                                ).map(list), max_size=4, unique_by=lambda c: c[0]),
    'named': st.integers(0, 5),
    'before': st.lists(ops, max_size=4),
    'ops': st.lists(ops, max_size=6),
    'how': st.sampled_from(['deepcopy', 'pickle', 'pickle0', 'pickle2']),
})
SPACE = {k: getattr(np, k) for k in dir(np) if not k.startswith('_')}
SPACE.update(ChannelPack=ChannelPack, datetime=datetime)


def duplicate(pack, how):
    if how == 'deepcopy':
        return copy.deepcopy(pack)
    return pickle.loads(pickle.dumps(pack, {'pickle': pickle.HIGHEST_PROTOCOL, 'pickle0': 0, 'pickle2': 2}[how]))


def apply(pack, op):
    """False if the operation is refused."""
    n = len(pack.mask)
    if op[0] == 'mask':
        pack.mask = np.array(gens.bools(op[1], n), dtype=bool)
    elif op[0] == 'startstop':
        pack.startstop(gens.bools(op[1], n), [i % 5 == 4 for i in range(n)])
    elif op[0] == 'poke':                   # values written in the arrays
        for k in sorted(pack.data):
            a = pack.data[k]
            if len(a) > 1:
                for i, b in enumerate(gens.bools(op[1], len(a))):
                    if b:
                        a[i] = a[0]
    elif op[0] == 'duration':
        pack.duration(op[1])
    elif op[0] == 'nof':
        pack.nof = op[1]
    elif op[0] == 'mindur':
        pack.mindur = op[1]
    elif op[0] == 'fn':
        pack.fn = op[1]
    elif op[0] == 'rename':
        for k in list(pack.names)[:2]:
            pack.names[k] = op[1]
        pack.names[7] = op[1]
    elif op[0] == 'prefix':
        pack.FALLBACK_PREFIX = op[1]
    elif op[0] == 'reset':
        pack.mask_reset()
    elif op[0] == 'drop' and pack.data:
        del pack.data[max(pack.data)]
        pack.mask_reset()
    elif op[0] == 'reverse' and pack.data:
        k = min(pack.data)
        pack.data[k] = pack.data[k][::-1]
    elif op[0] in ('append', 'selfappend') and n <= 5000:
        other = pack
        if op[0] == 'append':
            other = ChannelPack({k: a[:2] for k, a in pack.data.items()}, dict(pack.names))
            other.fn = 'more'
        pack.append_pack(other)


def state(pack):
    return {'data': {k: a.copy() for k, a in pack.data.items()}, 'names': dict(pack.names),
            'mask': pack.mask.tolist(), 'nof': pack.nof, 'mindur': pack.mindur, 'fn': pack.fn,
            'filenames': list(pack.filenames), 'prefix': pack.FALLBACK_PREFIX}


def equal(a, b):
    """None, or what differs."""
    for key in a:
        if key == 'data':
            if list(a[key]) != list(b[key]):
                return 'channels'
            for k, arr in a[key].items():
                if arr.dtype != b[key][k].dtype or not gens.same(arr, b[key][k]):
                    return 'data of channel %r: %s and %s' % (k, arr[:20], b[key][k][:20])
        elif key == 'names':
            if list(a[key].items()) != list(b[key].items()):
                return 'names'
        elif a[key] != b[key]:
            return '%s: %r and %r' % (key, a[key], b[key])
    return None


def check(case, cov):
    with harness():
        data = {k: gens.build(c, case['n']) for k, c in case['cols']}
        names = dict(map(tuple, case['names']))
        names.update(zip(list(data)[:case['named']], ['one', 'two words', 'tre', 'fyra', 'fem']))
    pack = ChannelPack(dict(data), dict(names))
    for op in case['before']:
        apply(pack, op)
    start = state(pack)

    # repr
    text = repr(pack)
    require(isinstance(text, str) and equal(state(pack), start) is None, 'repr changed the pack')
    with np.printoptions(threshold=sys.maxsize, floatmode='unique', precision=17):
        text = repr(pack)
    try:
        again = eval(text, dict(SPACE))
    except Exception as exc:
        require(False, 'repr {} cannot be evaluated: {}', text, repr(exc))
    require(type(again) is ChannelPack, 'repr evaluates to {}', type(again))
    require(sorted(again.data) == sorted(start['data']), 'repr: channels {}, expected {}', sorted(again.data),
            sorted(start['data']))
    for k, a in start['data'].items():
        require(gens.same(list(again.data[k]), list(a)), 'repr: channel {} is {}, expected {}', k, again.data[k], a)
    require(dict(again.names) == start['names'], 'repr: names {}, expected {}', dict(again.names), start['names'])

    # copies
    how = case['how']
    twin, still = duplicate(pack, how), duplicate(pack, how)
    for c in (twin, still):
        require(type(c) is ChannelPack and c is not pack, '{} is {}', how, type(c))
        diff = equal(state(c), start)
        require(diff is None, '{}: the copy differs in {}', how, diff)
        for k, a in pack.data.items():
            require(a.dtype == object or not np.shares_memory(a, c.data[k]), '{}: channel {} is shared', how, k)
    for i, op in enumerate(case['ops']):
        apply(pack, op)
        apply(twin, op)
        diff = equal(state(twin), state(pack))
        require(diff is None, '{}: after {} the copy and the pack differ in {}', how, case['ops'][:i + 1], diff)
        diff = equal(state(still), start)
        require(diff is None, '{}: after {} another copy was altered in {}', how, case['ops'][:i + 1], diff)
    # the copy still guards its keys and values
    for d, key, val in ((still.data, 'x', [1]), (still.data, 1, [[1]]), (still.names, 'x', 'x')):
        try:
            d[key] = val
        except (TypeError, ValueError):
            continue
        except Exception as exc:
            require(False, '{}: {} raised from {} = {}', how, repr(exc), key, val)
        require(False, '{}: a copy took {} = {}', how, key, val)
    cov.tagif(case['n'] > 1000, 'more than 1000 elements')
    cov.tag(how)
    return (len(start['data']) > 1 and case['n'] > 0 and bool(start['names'])
            and (not all(start['mask']) or bool(case['ops'])))


SUBS = [Sub('packs', cases, check, 6000, rule=RULE)]
