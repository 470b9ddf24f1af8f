"""Generators and builders shared by the checks of the pack itself.

A case is plain JSON. Columns and masks are written compactly (a few values that
are repeated, run lengths), so that long arrays cost the generator nothing.
"""
import datetime

import numpy as np
from hypothesis import strategies as st

KINDS = ('f', 'i', 'u', 'b', 'U', 'O', 'c', 'S', 'D')
# with those that numpy does not mix with others
ALLKINDS = KINDS + ('h', 'q', 'T')
DTYPES = {'h': ['f4', 'f2', 'g'], 'q': ['i1', 'i2', 'i4', 'u1', 'u2', 'u8'],
          'T': ['M8[D]', 'M8[s]', 'M8[ns]', 'M8[M]', 'M8[us]', 'm8[s]', 'm8[ns]', 'm8[D]']}

# lengths: mostly small, now and then well beyond any small constant
lengths = st.one_of(st.integers(0, 12), st.integers(0, 60), st.integers(0, 60),
                    st.sampled_from([0, 1, 2, 127, 128, 129, 255, 256, 257, 300, 999,
                                     1000, 1001, 1023, 1024, 1025, 2500]))
small_lengths = st.one_of(st.integers(0, 6), st.integers(0, 25))

floats = st.one_of(st.floats(allow_nan=True, allow_infinity=True, width=64),
                   st.integers(-5, 5).map(float), st.just(float('nan')))

text = st.text(st.characters(codec='utf-8', exclude_characters='\0'), max_size=6)


@st.composite
def column(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    if kind == 'f':
        base = draw(st.lists(floats, min_size=1, max_size=7))
    elif kind in 'iu':
        lo, hi = ((-2**63, 2**63 - 1) if kind == 'i' else (0, 2**32 - 1))
        base = draw(st.lists(st.one_of(st.integers(0, 9), st.integers(lo, hi)),
                             min_size=1, max_size=7))
    elif kind == 'b':
        base = draw(st.lists(st.booleans(), min_size=1, max_size=9))
    elif kind in 'U':
        base = draw(st.lists(text, min_size=1, max_size=7))
    elif kind == 'S':
        base = draw(st.lists(st.text('abc xyz09', max_size=5), min_size=1, max_size=7))
    elif kind == 'c':
        base = draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list),
                             min_size=1, max_size=5))
    elif kind in DTYPES:
        return {'k': kind, 'v': draw(st.lists(st.integers(0, 120), min_size=1, max_size=5)),
                't': draw(st.sampled_from(DTYPES[kind]))}
    elif kind == 'D':
        base = draw(st.lists(st.integers(0, 40000), min_size=1, max_size=5))
    else:
        base = draw(st.lists(st.one_of(st.none(), text, st.integers(-3, 3),
                                       st.booleans()), min_size=1, max_size=7))
    return {'k': kind, 'v': base}


def build(spec, n):
    """The 1d array of length n."""
    base = spec['v']
    vals = [base[i % len(base)] for i in range(n)]
    kind = spec['k']
    if kind in DTYPES:
        dt = np.dtype(spec['t'])
        if kind == 'T':
            return np.array(vals, dtype=np.int64).astype(dt)
        return (np.array(vals, dtype='g') / (8 if kind == 'h' else 1)).astype(dt)
    if kind == 'f':
        return np.array(vals, dtype=float)
    if kind == 'i':
        return np.array(vals, dtype=np.int64)
    if kind == 'u':
        return np.array(vals, dtype=np.uint32)
    if kind == 'b':
        return np.array(vals, dtype=bool)
    if kind == 'U':
        return np.array(vals, dtype='U')
    if kind == 'S':
        return np.array([v.encode() for v in vals], dtype='S')
    if kind == 'c':
        return np.array([complex(a, b) for a, b in vals], dtype=complex)
    arr = np.empty(n, dtype=object)
    for i, v in enumerate(vals):
        if kind == 'D':
            v = datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=v)
        arr[i] = v
    return arr


runs = st.one_of(
    st.lists(st.integers(1, 6), min_size=1, max_size=12),
    st.lists(st.integers(1, 3), min_size=1, max_size=30),
    st.lists(st.integers(1, 60), min_size=1, max_size=6),
    st.lists(st.sampled_from([1, 2, 126, 127, 128, 129, 255, 256, 257, 500, 1000, 1024]),
             min_size=1, max_size=5),
)
mask_spec = st.builds(lambda first, r: {'f': first, 'r': r}, st.booleans(), runs)
# a flag sequence: mostly False (triggers are rare) or anything
bits = st.one_of(mask_spec, mask_spec,
                 st.builds(lambda n, at: {'n': n, 'at': at}, st.booleans(),
                           st.lists(st.integers(0, 70), max_size=6)))


def bools(spec, n):
    """The list of n bools."""
    if 'at' in spec:
        out = [spec['n']] * n
        for i in spec['at']:
            if i < n:
                out[i] = not spec['n']
        return out
    out = []
    val = spec['f']
    r = spec['r']
    i = 0
    while len(out) < n:
        out.extend([val] * r[i % len(r)])
        val = not val
        i += 1
        if i == len(r) and i % 2:
            val = spec['f']       # let the pattern repeat as written
    return out[:n]


def runs_of(mask):
    """[(start, stop)] of the maximal True runs."""
    out = []
    start = None
    for i, m in enumerate(mask):
        if m and start is None:
            start = i
        if not m and start is not None:
            out.append((start, i))
            start = None
    if start is not None:
        out.append((start, len(mask)))
    return out


def eq1(a, b):
    """Element equality; nan is nan, and a string is not a number."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return (isinstance(a, (str, bytes)) and isinstance(b, (str, bytes))
                and bool(a == b))
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    return bool(a == b)


def same(got, want):
    """got (array or sequence) holds the very elements of want, in order."""
    if len(got) != len(want):
        return False
    if isinstance(got, np.ndarray) and isinstance(want, np.ndarray) \
            and got.dtype == want.dtype and got.dtype.kind in 'iubUSfcmM':
        if got.dtype.kind in 'fcmM':
            return bool(np.array_equal(got, want, equal_nan=True))
        return bool(np.array_equal(got, want))
    return all(eq1(a, b) for a, b in zip(list(got), list(want)))


identifiers = st.one_of(
    st.sampled_from(['a', 'b', 'speed', 'x1', 'RPT', 'ch1', 'ch2', 'ch0', 'ch10', 'ch', 'h1',
                     'höjd', 'Record', 'names', 'n_1', 'l', 'temp_C']),
    st.from_regex(r'\A[A-Za-z][A-Za-z0-9_]{0,4}\Z'))
names_any = st.one_of(identifiers, identifiers, st.sampled_from(
    ['', ' ', 'a b', 'speed (km/h)', 'RPT  x', 'ch4foo', 'ch04', '4', 'ch-1', 'class', '_x',
     'xch1', 'CH1', 'ch1 ', ' ch1', 'ch1\n', '0', '1', 'ch999']), text)
keys = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 10**6))
prefixes = st.one_of(st.just('ch'), st.just('ch'), st.sampled_from(
    ['c', 'kanal', 'ch1', 'Ch', '_', 'x_', 'chan_2_', 'höjd', 'col']))
