"""C10: attribute settings are validated, take effect, and a rejected one changes nothing."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, raises
import gens

RULE = ('A case is a pack and a history of valid and invalid attribute settings (nof, mindur, mask, '
        'data, names, fn, FALLBACK_PREFIX), attribute deletions and appends; after every step all '
        'attributes are compared with a model. Non-trivial: at least one accepted and one rejected '
        'setting.')

VALID = {
    'nof': ['nan', 'filter', None],
    'mindur': [None, 0, 1, 3, 50],
    'fn': ['', 'a.txt', '/x/y.dbf', 'ä.xls', 'c d'],
    'FALLBACK_PREFIX': ['ch', 'kanal', 'x_', 'c1'],
}
INVALID = {
    'nof': (ValueError, ['Nan', 'ignore', '', 0, False, True, 1, 'filters', b'nan', ['nan']]),
    'mindur': (TypeError, [1.5, '3', [1], 2.0, b'1', (1,), {}]),
    'fn': (TypeError, [None, b'a.txt', 3, ['a'], 0]),
    'FALLBACK_PREFIX': (TypeError, [None, b'ch', 1, ['ch']]),
    'mask': (TypeError, [None, [True, False], (True,), True, 1, 'x', []]),
    'data': ((TypeError, ValueError), [{'a': [1]}, {0: 5}, {0: [[1], [2]]}, 7, {0: 'x'}, 'ab',
                                       {1.5: [1]}, [(0, [1]), ('a', [2])], {0: [1], 1: None}, 1.5]),
    'names': ((TypeError, ValueError), [{'a': 'b'}, {None: 'x'}, 3, {0: 'a', '1': 'b'}, 'ab',
                                        [('x', 'y')], {2.0: 'z'}]),
}
UNDELETABLE = ['FALLBACK_PREFIX', 'data', 'fn', 'filenames', 'names', 'nof', 'mindur']
sel = st.integers(0, 99)
op = st.one_of(
    st.tuples(st.just('set'), st.sampled_from(sorted(VALID)), sel),
    st.tuples(st.just('set'), st.sampled_from(sorted(VALID)), sel),
    st.tuples(st.just('bad'), st.sampled_from(sorted(INVALID)), sel),
    st.tuples(st.just('mask'), gens.bits),
    st.tuples(st.just('data'), gens.small_lengths),
    st.tuples(st.just('names'), st.lists(st.tuples(gens.keys, gens.names_any).map(list),
                                         max_size=3)),
    st.tuples(st.just('del'), st.sampled_from(UNDELETABLE)),
    st.tuples(st.just('append'), st.integers(0, 3)),
    st.tuples(st.just('fresh'), st.just(0)),
).map(list)
cases = st.fixed_dictionaries({
    'n': gens.small_lengths, 'names': st.booleans(),
    'ops': st.lists(op, min_size=1, max_size=14)})


def col(n):
    return [float(i % 5) for i in range(n)]


def check(case, cov):
    with harness():
        m = {'nof': None, 'mindur': None, 'fn': '', 'FALLBACK_PREFIX': 'ch',
             'names': {0: 'a b'} if case['names'] else {}, 'filenames': ['']}
        data = col(case['n'])
        mask = [True] * len(data)

    def renew(vals):
        vals = list(vals)
        if m['mindur'] is not None:
            for a, b in gens.runs_of(vals):
                if b - a < m['mindur']:
                    vals[a:b] = [False] * (b - a)
        return vals

    pack = ChannelPack({0: list(data)}, dict(m['names']))
    accepted = rejected = 0
    bystander = ChannelPack({0: [1, 2]}, {0: 'by'})
    for i, op in enumerate(case['ops']):
        what = 'op %d %r' % (i, op)
        kind = op[0]
        if kind == 'set':
            name = op[1]
            val = VALID[name][op[2] % len(VALID[name])]
            setattr(pack, name, val)
            m[name] = val
            if name == 'mindur':
                mask = renew(mask)
            elif name == 'fn':
                m['filenames'][0] = val
            accepted += 1
        elif kind == 'bad':
            exc, vals = INVALID[op[1]]
            val = vals[op[2] % len(vals)]
            raises(exc, lambda: setattr(pack, op[1], val), '%s = %r' % (op[1], val))
            rejected += 1
        elif kind == 'mask':
            vals = gens.bools(op[1], len(data))
            given = np.array(vals, dtype=bool)
            pack.mask = given
            mask = renew(vals)
            require(given.tolist() == vals, '{}: the array given was changed to {}', what, given)
            given ^= True           # no longer the mask's
            accepted += 1
        elif kind == 'data':
            data = col(op[1])
            pack.data = {0: list(data)}
            mask = renew([True] * len(data))
            accepted += 1
        elif kind == 'names':
            m['names'] = {k: v for k, v in op[1]}
            pack.names = dict(m['names'])
            accepted += 1
        elif kind == 'del':
            raises(AttributeError, lambda: delattr(pack, op[1]), 'del ' + op[1])
            rejected += 1
        elif kind == 'append':
            other = ChannelPack({0: col(op[1])})
            other.fn = 'other%d' % i
            pack.append_pack(other)
            data = data + col(op[1])
            mask = renew([True] * len(data))
            m['filenames'].append('other%d' % i)
        elif kind == 'fresh':
            # what is set in one pack is nobody else's
            new = ChannelPack({0: [1.0]})
            require((new.nof, new.mindur, new.fn, new.FALLBACK_PREFIX, list(new.filenames),
                     dict(new.names)) == (None, None, '', 'ch', [''], {}),
                    '{}: a new pack is not pristine', what)
        for name in VALID:
            require(getattr(pack, name) == m[name] and type(getattr(pack, name)) is type(m[name]),
                    '{}: {} is {}, expected {}', what, name, getattr(pack, name), m[name])
        require(list(pack.filenames) == m['filenames'], '{}: filenames {}, expected {}', what,
                pack.filenames, m['filenames'])
        require(dict(pack.names) == m['names'], '{}: names {}', what, dict(pack.names))
        require(set(pack.data) == {0} and pack.data[0].tolist() == data, '{}: data {}', what,
                pack.data)
        require(pack.mask.tolist() == mask, '{}: mask {}, expected {}', what, pack.mask, mask)
        require(len(pack.parts()) == len(gens.runs_of(mask)), '{}: parts {}', what, pack.parts())
        got = pack(0)
        if m['nof'] == 'filter':
            want = [v for v, b in zip(data, mask) if b]
        elif m['nof'] == 'nan':
            want = [v if b else float('nan') for v, b in zip(data, mask)]
        else:
            want = data
        require(gens.same(got.tolist(), want), '{}: pack(0) is {}, expected {}', what, got, want)
        require(pack.name(0, fallback=True) == m['FALLBACK_PREFIX'] + '0', '{}: fallback', what)
        require(bystander.data[0].tolist() == [1, 2] and dict(bystander.names) == {0: 'by'}
                and list(bystander.filenames) == [''] and bystander.mask.all(),
                '{}: another pack was altered', what)
    cov.tagif(accepted, 'accepted')
    cov.tagif(rejected, 'rejected')
    return bool(accepted and rejected)


SUBS = [Sub('attributes', cases, check, 8000, rule=RULE)]
