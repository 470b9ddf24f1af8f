"""A reference model of a ChannelPack's mask, and generated histories of operations."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import harness, require, raises
import gens

sel = st.integers(0, 99)


def cols(max_size=4, kinds=gens.ALLKINDS):
    return st.lists(st.tuples(gens.keys, gens.column(kinds)).map(list), min_size=1,
                    max_size=max_size, unique_by=lambda kc: kc[0])


durations = st.one_of(
    st.tuples(st.integers(0, 8), st.just(1)),
    st.tuples(st.integers(0, 300), st.sampled_from([1, 1, 2, 10])),
    st.tuples(st.sampled_from([0, 0.5, 1.5, 0.25, 2.75, 3.0, 0.1, 0.29, 2.999]),
              st.sampled_from([1, 2, 4, 10, 100, 0.5, 2.5])),
    st.tuples(st.integers(0, 5), st.floats(0.1, 5))).map(list)

OPS = {
    'mask': st.tuples(st.just('mask'), gens.bits),
    'and': st.tuples(st.just('and'), gens.bits),
    'or': st.tuples(st.just('or'), gens.bits),
    'expr': st.tuples(st.just('expr'), sel),
    'startstop': st.tuples(st.just('startstop'), gens.bits, gens.bits,
                           st.sampled_from([True, True, True, False]),
                           st.sampled_from(['arr', 'list', 'ints', 'tuple', 'objs'])),
    'duration': st.tuples(st.just('duration'), durations, st.sampled_from([True, True, False])),
    'mindur': st.tuples(st.just('mindur'), st.one_of(st.none(), st.integers(0, 7),
                                                     st.integers(0, 300))),
    'reset': st.tuples(st.just('reset')),
    'nof': st.tuples(st.just('nof'), st.sampled_from(['nan', 'filter', None])),
    'data': st.tuples(st.just('data'), cols(3), gens.small_lengths,
                      st.sampled_from(['dict', 'pairs', 'packdata'])),
    'setcol': st.tuples(st.just('setcol'), gens.keys, gens.column(gens.ALLKINDS)),
    'append': st.tuples(st.just('append'), gens.small_lengths, sel),
    'chanmask': st.tuples(st.just('chanmask'), sel),
}


def history(names, max_size=12):
    return st.lists(st.one_of(*[OPS[n] for n in names]).map(list), min_size=1, max_size=max_size)


def flags(spec, n, form):
    vals = gens.bools(spec, n)
    if form == 'arr':
        return np.array(vals, dtype=bool), vals
    if form == 'list':
        return list(vals), vals
    if form == 'ints':
        return np.array([3 if v else 0 for v in vals], dtype=int), vals
    if form == 'objs':
        return ['x' if v else '' for v in vals], vals
    return tuple(vals), vals


def startstop_ref(start, stop):
    out = []
    on = False
    for a, b in zip(start, stop):
        on = (on or a) and not b
        out.append(bool(on))
    return out


def drop_runs(mask, bad):
    out = list(mask)
    for a, b in gens.runs_of(mask):
        if bad(b - a):
            out[a:b] = [False] * (b - a)
    return out


class Model(object):
    def __init__(self, data):
        self.data = data                      # key -> array (private copies)
        self.mindur = None
        self.nof = None
        self.mask = []
        self.reset()

    @property
    def n(self):
        return len(self.data[min(self.data)]) if self.data else 0

    def set_mask(self, mask):
        self.mask = list(mask)
        if self.mindur is not None:
            self.mask = drop_runs(self.mask, lambda k: k < self.mindur)

    def reset(self):
        self.set_mask([True] * self.n)


class Driver(object):
    """Apply an operation to the pack and to the model."""

    def __init__(self, case):
        with harness():
            n = case['n']
            data = {k: gens.build(c, n) for k, c in case['cols']}
            self.model = Model({k: a.copy() for k, a in data.items()})
        self.pack = ChannelPack(data)
        self.tags = set()

    def apply(self, op, what):
        pack, m = self.pack, self.model
        kind = op[0]
        n = m.n
        if kind == 'mask':
            vals = gens.bools(op[1], n)
            given = np.array(vals, dtype=bool)
            pack.mask = given
            m.set_mask(vals)
        elif kind == 'and':
            vals = gens.bools(op[1], n)
            pack.mask &= np.array(vals, dtype=bool)
            m.set_mask([a and b for a, b in zip(m.mask, vals)])
        elif kind == 'or':
            vals = gens.bools(op[1], n)
            pack.mask = pack.mask | np.array(vals, dtype=bool)
            m.set_mask([a or b for a, b in zip(m.mask, vals)])
        elif kind == 'expr':
            # a mask computed from a channel, as in the documentation
            nums = [k for k in sorted(m.data) if m.data[k].dtype.kind in 'if']
            if not nums or not n:
                return
            key = nums[op[1] % len(nums)]
            pivot = m.data[key][op[1] % n]
            with np.errstate(all='ignore'):
                vals = [bool(v > pivot) for v in m.data[key]]
                pack.mask = pack(key, nof='ignore') > pivot
            m.set_mask(vals)
        elif kind == 'chanmask':
            boolcols = [k for k in sorted(m.data) if m.data[k].dtype.kind == 'b']
            if not boolcols:
                return
            key = boolcols[op[1] % len(boolcols)]
            chan = pack(key, nof='ignore')
            pack.mask = chan[:] if op[1] % 2 else chan      # itself or a view of it
            m.set_mask([bool(v) for v in m.data[key]])
            self.tags.add('mask taken from a channel')
        elif kind == 'startstop':
            a, av = flags(op[1], n, op[4])
            b, bv = flags(op[2], n, op[4])
            want = startstop_ref(av, bv)
            before = list(m.mask)
            got = pack.startstop(a, b, apply=op[3])
            require(isinstance(got, np.ndarray), '{}: result is not an array: {}', what, got)
            require([bool(v) for v in got] == want, '{}: startstop result {}, expected {}', what,
                    got, want)
            require(not n or got.dtype.kind == 'b', '{}: result dtype {}', what, got.dtype)
            if op[3]:
                m.set_mask([p and q for p, q in zip(before, want)])
            self.tags.add('startstop')
        elif kind == 'duration':
            (dur, rate), mindur = op[1], op[2]
            req = int(dur * rate)
            before = m.mask
            m.mask = drop_runs(before, (lambda k: k < req) if mindur else (lambda k: k > req))
            got = pack.duration(dur, samplerate=rate, mindur=mindur)
            require([bool(v) for v in got] == m.mask, '{}: duration returned {}, expected {}',
                    what, got, m.mask)
            if m.mask != before:
                self.tags.add('duration removed a part')
        elif kind == 'mindur':
            pack.mindur = op[1]
            m.mindur = op[1]
            if op[1] is not None:
                m.set_mask(m.mask)
        elif kind == 'reset':
            pack.mask_reset()
            m.reset()
        elif kind == 'nof':
            pack.nof = m.nof = op[1]
        elif kind == 'data':
            with harness():
                data = {k: gens.build(c, op[2]) for k, c in op[1]}
                m.data = {k: a.copy() for k, a in data.items()}
            if op[3] == 'dict':
                pack.data = data
            elif op[3] == 'pairs':
                pack.data = list(data.items())
            else:
                pack.data = ChannelPack(data).data
            m.reset()
            self.tags.add('data replaced')
        elif kind == 'setcol':
            arr = gens.build(op[2], n)
            if m.data and op[1] < min(m.data):
                pass                          # same length, so the mask still fits
            pack.data[op[1]] = arr
            m.data[op[1]] = arr.copy()
        elif kind == 'append':
            with harness():
                k = op[1]
                extra = {key: a[:k].copy() for key, a in m.data.items()}
                other = ChannelPack({key: a.copy() for key, a in extra.items()})
            pack.append_pack(other)
            m.data = {key: np.append(a, extra[key]) for key, a in m.data.items()}
            m.reset()
        else:
            raise AssertionError(kind)
        self.tags.add('op ' + kind)

    # -- observations ---------------------------------------------------------

    def observe(self, what, full=True):
        pack, m = self.pack, self.model
        n = m.n
        mask = pack.mask
        require(isinstance(mask, np.ndarray) and mask.ndim == 1 and len(mask) == n,
                '{}: mask is {}, expected {} elements', what, mask, n)
        require(mask.dtype.kind == 'b', '{}: mask dtype {}', what, mask.dtype)
        require(mask.tolist() == m.mask, '{}: mask is {}, expected {}', what, mask, m.mask)
        runs = gens.runs_of(m.mask)
        parts = pack.parts()
        require(list(parts) == list(range(len(runs))), '{}: parts are {}, expected {}', what,
                parts, len(runs))
        keys = sorted(m.data)
        for key in (keys if full else keys[:2]):
            ref = m.data[key]
            stored = pack.data[key]
            require(stored.dtype == ref.dtype and gens.same(stored, ref),
                    '{}: data of channel {} altered: {}, was {}', what, key, stored, ref)
            marr = np.array(m.mask, dtype=bool)
            kept = ref[marr]
            views = {
                'ignore': lambda: pack(key, nof='ignore'),
                'filter': lambda: pack(key, nof='filter'),
                'nan': lambda: pack(key, nof='nan'),
                None: lambda: pack(key),
            }
            for nof, view in views.items():
                got = view()
                eff = nof if nof else m.nof
                self.check_view(got, eff, ref, kept, '%s: channel %s nof=%r (attribute %r)'
                                % (what, key, nof, m.nof))
            probe = range(len(runs)) if full or len(runs) < 8 else (0, len(runs) - 1)
            whole = []
            for p in probe:
                a, b = runs[p]
                got = pack(key, part=p)
                require(isinstance(got, np.ndarray) and got.dtype == ref.dtype
                        and gens.same(got, ref[a:b]),
                        '{}: part {} of channel {} is {}, expected {}', what, p, key, got, ref[a:b])
                whole.extend(got.tolist())
                if p == 0:
                    for nof in ('nan', 'filter', 'ignore'):
                        got = pack(key, part=p, nof=nof)
                        require(gens.same(got, ref[a:b]),
                                '{}: part {} with nof={} is {}', what, p, nof, got)
            for p in (len(runs), len(runs) + 3):
                raises(IndexError, lambda: pack(key, part=p), '%s: part %d of %d'
                       % (what, p, len(runs)))
            if len(list(probe)) == len(runs):
                require(gens.same(whole, kept.tolist()),
                        '{}: the parts of channel {} do not add up to the filtered channel', what,
                        key)

    def check_view(self, got, nof, ref, kept, what):
        require(isinstance(got, np.ndarray), '{}: not an array: {}', what, got)
        if nof in (None, 'ignore'):
            require(got.dtype == ref.dtype and gens.same(got, ref), '{}: {}, expected {}', what,
                    got, ref)
        elif nof == 'filter':
            require(got.dtype == ref.dtype and gens.same(got, kept), '{}: {}, expected {}', what,
                    got, kept)
        else:
            numeric = ref.dtype.kind in 'iufc'
            require(got.shape == ref.shape, '{}: shape {}, expected {}', what, got.shape, ref.shape)
            require(not numeric or got.dtype.kind in 'fc', '{}: dtype {}', what, got.dtype)
            marr = np.array(self.model.mask, dtype=bool)
            if numeric:
                require((got.dtype.kind == 'c') == (ref.dtype.kind == 'c'), '{}: dtype {}', what, got.dtype)
                want = ref.astype(float) if ref.dtype.kind in 'iu' else ref
                require(np.array_equal(got[marr], want[marr], equal_nan=True),
                        '{}: kept values {}, expected {}', what, got, ref)
                require(bool(np.all(np.isnan(got[~marr]))), '{}: {} at False elements', what, got)
            else:
                require(gens.same(list(got[marr]), list(ref[marr])),
                        '{}: kept values {}, expected {}', what, got, ref)
                require(all(v is None for v in got[~marr].tolist()),
                        '{}: {} at False elements', what, got)


def run(case, cov):
    d = Driver(case)
    d.observe('new pack')
    big = d.model.n > 120
    for i, op in enumerate(case['ops']):
        what = 'op %d %s' % (i, op[0])
        d.apply(op, what)
        last = i == len(case['ops']) - 1
        d.observe(what, full=last or not big)
    for t in d.tags:
        cov.tag(t)
    cov.tagif(big, 'more than 120 elements')
    return d
