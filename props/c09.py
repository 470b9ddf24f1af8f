"""C09: append_pack concatenates channel by channel, or rejects and changes nothing."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, raises
import gens

RULE = ('A case is 2 to 4 packs (some empty, some without names, key sets aligned or not) and a '
        'history of append_pack calls among them (a pack to itself too) mixed with masking, nof settings, item '
        'assignments, in-place changes of elements and renames; after every step all packs are '
        'compared with independent models. Non-trivial: at least one accepted append of non-empty '
        'data, followed by another operation, or a rejected append.')

KEYSETS = [[0, 1], [0, 1], [0, 1], [1, 0], [0, 1, 2], [3], [], []]


@st.composite
def packs(draw):
    keys = draw(st.sampled_from(KEYSETS))
    nkeys = draw(st.sampled_from([keys, keys, keys, [], [0, 1], [5]]))
    # a few kinds, so that the same channel often (not always) has the same type everywhere
    cols = [[k, draw(gens.column(('f', 'i', 'U') if k != 1 else gens.KINDS))] for k in keys]
    return {'n': draw(st.one_of(gens.small_lengths, gens.lengths)), 'cols': cols,
            'names': [[k, draw(gens.identifiers)] for k in nkeys],
            'fn': draw(st.sampled_from([None, 'a.txt', 'b.dbf', '']))}


sel = st.integers(0, 9)
op = st.one_of(
    st.tuples(st.just('append'), sel, sel),
    st.tuples(st.just('append'), sel, sel),
    st.tuples(st.just('append'), sel, sel),
    st.tuples(st.just('mask'), sel, gens.bits),
    st.tuples(st.just('mindur'), sel, st.sampled_from([None, None, 1, 3])),
    st.tuples(st.just('nof'), sel, st.sampled_from(['nan', 'filter', None])),
    st.tuples(st.just('item'), sel, gens.column(('f', 'i', 'U'))),
    st.tuples(st.just('inplace'), sel, sel),
    st.tuples(st.just('rename'), sel, gens.identifiers),
    st.tuples(st.just('fn'), sel, st.sampled_from(['new.txt', 'x'])),
    st.tuples(st.just('clear'), sel),
).map(list)
cases = st.fixed_dictionaries({'packs': st.lists(packs(), min_size=2, max_size=4),
                               'ops': st.lists(op, min_size=1, max_size=12)})


class M(object):
    def __init__(self, data, names, fn):
        self.data, self.names, self.fn = data, names, fn
        self.filenames = [fn]
        self.mindur = self.nof = None
        self.mask = [True] * self.n

    @property
    def n(self):
        return len(self.data[min(self.data)]) if self.data else 0

    def set_mask(self, mask):
        self.mask = list(mask)
        if self.mindur is not None:
            for a, b in gens.runs_of(self.mask):
                if b - a < self.mindur:
                    self.mask[a:b] = [False] * (b - a)


def observe(real, models, what):
    for j, (p, m) in enumerate(zip(real, models)):
        w = '%s: pack %d' % (what, j)
        require(set(p.data) == set(m.data), '{} has channels {}, expected {}', w, sorted(p.data),
                sorted(m.data))
        for k in m.data:
            require(p.data[k].dtype == m.data[k].dtype and gens.same(p.data[k], m.data[k]),
                    '{}: channel {} is {}, expected {}', w, k, p.data[k], m.data[k])
        require(dict(p.names) == m.names, '{}: names {}, expected {}', w, dict(p.names), m.names)
        require(list(p.filenames) == m.filenames and p.fn == m.fn,
                '{}: filenames {} fn {}, expected {} {}', w, p.filenames, p.fn, m.filenames, m.fn)
        require(p.mask.tolist() == m.mask, '{}: mask {}, expected {}', w, p.mask, m.mask)
        require(len(p.parts()) == len(gens.runs_of(m.mask)), '{}: parts {}', w, p.parts())
        require(p.mindur == m.mindur and p.nof == m.nof, '{}: mindur {} nof {}', w, p.mindur, p.nof)


def check(case, cov):
    real, models = [], []
    with harness():
        for spec in case['packs']:
            data = {k: gens.build(c, spec['n']) for k, c in spec['cols']}
            names = {k: v for k, v in spec['names']}
            models.append(M({k: a.copy() for k, a in data.items()}, dict(names), spec['fn'] or ''))
            p = ChannelPack(data, names)
            if spec['fn'] is not None:
                p.fn = spec['fn']
            real.append(p)
    observe(real, models, 'new')
    accepted = rejected = more = 0
    for i, op in enumerate(case['ops']):
        kind, who = op[0], op[1] % len(real)
        p, m = real[who], models[who]
        what = 'op %d %s %d' % (i, kind, who)
        if kind == 'append':
            src = op[2] % len(real)
            o, om = real[src], models[src]
            what += ' <- %d' % src
            if (m.data and om.data and set(m.data) != set(om.data)) or \
                    (m.names and om.names and set(m.names) != set(om.names)):
                raises(ValueError, lambda: p.append_pack(o), what)
                rejected += 1
            else:
                with harness():
                    if not m.data:
                        data = {k: a.copy() for k, a in om.data.items()}
                    else:
                        data = {k: (np.append(a, om.data[k]) if om.data else a)
                                for k, a in m.data.items()}
                    names = dict(m.names or om.names)
                    filenames = m.filenames + om.filenames
                p.append_pack(o)
                m.data, m.names, m.filenames = data, names, filenames
                m.set_mask([True] * m.n)
                accepted += bool(om.n)
                cov.tagif(src == who, 'appended to itself')
                cov.tagif(m.mindur, 'append under mindur')
        elif kind == 'mask':
            vals = gens.bools(op[2], m.n)
            p.mask = np.array(vals, dtype=bool)
            m.set_mask(vals)
        elif kind == 'mindur':
            p.mindur = m.mindur = op[2]
            m.set_mask(m.mask)
        elif kind == 'nof':
            p.nof = m.nof = op[2]
        elif kind == 'item' and m.data:
            k = max(m.data)
            arr = gens.build(op[2], m.n)
            p.data[k] = arr
            m.data[k] = arr.copy()
        elif kind == 'inplace' and m.n:
            k = min(m.data)
            at = op[2] % m.n
            p.data[k][at] = p.data[k][-1]
            m.data[k][at] = m.data[k][-1]
        elif kind == 'rename' and m.names:
            k = min(m.names)
            p.names[k] = m.names[k] = op[2]
        elif kind == 'fn':
            p.fn = m.fn = m.filenames[0] = op[2]
        elif kind == 'clear':
            p.data = {}
            m.data = {}
            m.set_mask([])
        observe(real, models, what)
        more += bool(accepted)
    cov.tagif(accepted, 'accepted')
    cov.tagif(rejected, 'rejected')
    return bool(rejected or (accepted and more > 1))


SUBS = [Sub('appends', cases, check, 6000, rule=RULE)]
