"""C02: a channel reference means key, then name, then fallback string, else KeyError."""
import re

import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, raises
import gens

RULE = ('A case is a pack whose channels all hold different values, and a history of look-ups mixed '
        'with changes of names, FALLBACK_PREFIX and data. Non-trivial: at least one successful '
        'look-up by name or fallback string and one that has to fail, or a name that collides with '
        'a fallback string of another channel.')

pick = st.integers(0, 50)
query = st.one_of(
    st.tuples(st.just('key'), pick),             # a key in data
    st.tuples(st.just('int'), st.integers(-2, 14)),
    st.tuples(st.just('name'), pick),            # a name in names
    st.tuples(st.just('name'), pick),
    st.tuples(st.just('fb'), pick, st.sampled_from(['', '', '', '', '0', '00'])),
    st.tuples(st.just('fbint'), st.integers(0, 14)),
    st.tuples(st.just('fbjunk'), pick, st.sampled_from(
        ['foo', ' ', '.0', '\n', '_', '-', 'a1', '\t', ',1', 'é'])),
    st.tuples(st.just('prejunk'), pick, st.sampled_from([' ', 'x', '\n', '0'])),
    st.tuples(st.just('str'), gens.names_any),
).map(list)
change = st.one_of(
    st.tuples(st.just('prefix'), gens.prefixes),
    st.tuples(st.just('rename'), gens.keys, gens.names_any),
    st.tuples(st.just('names'), st.lists(st.tuples(gens.keys, gens.names_any).map(list),
                                         max_size=5)),
    st.tuples(st.just('delname'), pick),
    st.tuples(st.just('del'), pick),
    st.tuples(st.just('add'), gens.keys),
    st.tuples(st.just('data'), st.lists(gens.keys, min_size=1, max_size=5)),
).map(list)


@st.composite
def cases(draw):
    keys = draw(st.lists(gens.keys, min_size=1, max_size=7, unique=True))
    prefix = draw(gens.prefixes)
    names = []
    for k in keys:
        how = draw(st.integers(0, 5))
        if how == 0:
            continue
        if how == 1:    # a name that looks like somebody's fallback string
            names.append([k, prefix + str(draw(st.sampled_from(keys)))])
        else:
            names.append([k, draw(gens.names_any)])
    if draw(st.integers(0, 3)) == 0:
        names.append([draw(gens.keys), draw(gens.names_any)])
    ops = draw(st.lists(st.one_of(query, query, query, query, change), min_size=1, max_size=25))
    return {'keys': keys, 'names': names, 'prefix': prefix, 'n': draw(st.integers(1, 4)),
            'perm': draw(st.booleans()), 'ops': ops}


def column(key, n, salt):
    return [key * 100.0 + salt + i for i in range(n)]


def check(case, cov):
    with harness():
        n = case['n']
        data = {k: column(k, n, 0) for k in case['keys']}
        names = {k: v for k, v in case['names']}
        if case['perm']:
            names = dict(reversed(list(names.items())))
        prefix = case['prefix']
    pack = ChannelPack(dict(data), dict(names))
    pack.FALLBACK_PREFIX = prefix
    good = bad = collide = 0
    for i, op in enumerate(case['ops']):
        kind = op[0]
        if kind in ('prefix', 'rename', 'names', 'delname', 'del', 'add', 'data'):
            if kind == 'prefix':
                pack.FALLBACK_PREFIX = prefix = op[1]
            elif kind == 'rename':
                pack.names[op[1]] = names[op[1]] = op[2]
            elif kind == 'names':
                names = {k: v for k, v in op[1]}
                pack.names = dict(names)
            elif kind == 'delname' and names:
                k = sorted(names)[op[1] % len(names)]
                del names[k]
                del pack.names[k]
            elif kind == 'del' and len(data) > 1:
                k = sorted(data)[op[1] % len(data)]
                del data[k]
                del pack.data[k]
            elif kind == 'add':
                data[op[1]] = column(op[1], n, i)
                pack.data[op[1]] = list(data[op[1]])
            elif kind == 'data':
                data = {k: column(k, n, i) for k in op[1]}
                pack.data = {k: list(v) for k, v in data.items()}
            continue
        with harness():
            dkeys = sorted(data)
            if kind == 'key':
                ch = dkeys[op[1] % len(dkeys)]
            elif kind == 'int':
                ch = op[1]
            elif kind == 'name':
                if not names:
                    continue
                ch = names[sorted(names)[op[1] % len(names)]]
            elif kind == 'fb':
                ch = prefix + op[2] + str(dkeys[op[1] % len(dkeys)])
            elif kind == 'fbint':
                ch = prefix + str(op[1])
            elif kind == 'fbjunk':
                ch = prefix + str(dkeys[op[1] % len(dkeys)]) + op[2]
            elif kind == 'prejunk':
                ch = op[2] + prefix + str(dkeys[op[1] % len(dkeys)])
            else:
                ch = op[1]
            want = None
            if isinstance(ch, int):
                want = {ch} & set(data)
            else:
                hits = [k for k, v in names.items() if v == ch]
                present = {k for k in hits if k in data}
                if hits:
                    if present and len(present) != len(hits):
                        continue        # two channels share the name, one has no data
                    want = present
                m = re.fullmatch(re.escape(prefix) + '([0-9]+)', ch)
                fb = int(m.group(1)) if m else None
                if hits:
                    if fb in data and fb not in present:
                        collide += 1
                elif m:
                    want = {fb} & set(data)
                else:
                    want = set()
                if not hits and not m and re.match(re.escape(prefix) + r'\d+\Z', ch):
                    continue            # digits of other scripts: unspecified
        what = 'op %d pack(%r)' % (i, ch)
        if not want:
            raises(KeyError, lambda: pack(ch), what)
            raises(KeyError, lambda: pack(ch, nof='filter'), what)
            raises(KeyError, lambda: pack(ch, part=0), what)
            raises(KeyError, lambda: pack.name(ch, fallback=True), what)
            bad += 1
            continue
        got = pack(ch)
        require(isinstance(got, np.ndarray), '{} is not an array', what)
        require(any(got.tolist() == data[k] for k in want), '{} returned {}, expected channel {}',
                what, got, sorted(want))
        key = [k for k in want if got.tolist() == data[k]][0]
        # every way of asking for data resolves the reference alike
        require(pack(ch, nof='ignore').tolist() == data[key], '{} with ignore', what)
        require(pack.name(ch, fallback=True) == prefix + str(key), '{}: fallback name {}',
                what, pack.name(ch, fallback=True))
        if isinstance(ch, str):
            good += 1
    cov.tagif(collide, 'name collides with a fallback string')
    cov.tagif(good, 'string look-up succeeded')
    cov.tagif(bad, 'look-up had to fail')
    return bool((good and bad) or collide)


SUBS = [Sub('lookups', cases(), check, 8000, rule=RULE)]
