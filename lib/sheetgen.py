"""Generated workbooks: a JSON description of sheets and cells that is its own oracle.

A cell is None (no cell), ['z', style] (blank, formatted), ['n', number, style],
['d', serial, style], ['t', text, how], ['b', 0/1, how], ['e', code, how].
'how' picks one of the ways a file format can store the value.
"""
import datetime
import string
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)
ERRORS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?',
          0x24: '#NUM!', 0x2A: '#N/A'}

# built-in formats whose meaning does not depend on the locale
NUM_IDS = list(range(0, 14)) + list(range(37, 45)) + [48, 49]
DATE_IDS = list(range(14, 23)) + [45, 46, 47]
# of East Asian and Thai editions
NUM_MORE = list(range(59, 63)) + list(range(67, 71))
DATE_MORE = list(range(27, 37)) + list(range(50, 59)) + list(range(71, 82))
BUILTIN = {0: 'General', 1: '0', 2: '0.00', 3: '#,##0', 4: '#,##0.00', 9: '0%', 10: '0.00%',
           11: '0.00E+00', 12: '# ?/?', 13: '# ??/??', 14: 'm/d/yy', 15: 'd-mmm-yy', 16: 'd-mmm',
           17: 'mmm-yy', 18: 'h:mm AM/PM', 19: 'h:mm:ss AM/PM', 20: 'h:mm', 21: 'h:mm:ss',
           22: 'm/d/yy h:mm', 45: 'mm:ss', 46: '[h]:mm:ss', 47: 'mm:ss.0', 48: '##0.0E+0', 49: '@'}
NUM_CODES = ['0', '0.00', '#,##0.00', '0.00%', '0.000E+00', '# ?/?', '"day" 0.0', '0.0 "m/s"',
             '0.0" deg";-0.0" deg"', '#,##0_);(#,##0)', '[Red]0.0;[Blue]-0.0', '\\d0', '0\\s',
             '0.0\\ "ymdhs"', '[$kr-41D] #,##0.00', 'General', '[Red]General', '0_d', '0*y',
             '"Yes";"Yes";"No"', '"On"', 'General" m"', '@', '+0;-0;0', '[>100]0;0.0', '##0.0E+0']
DATE_CODES = ['yyyy-mm-dd', 'd/m/yy', 'yyyy\\-mm\\-dd\\ hh:mm:ss', 'dd.mm.yyyy', 'h:mm', 'hh:mm:ss.0',
              '[h]:mm:ss', '[$-409]d\\-mmm\\-yy;@', '[$-F800]dddd\\,\\ mmmm\\ dd\\,\\ yyyy',
              'dd "of" mmmm', '[Red]yyyy', 'mmm-yy', 'YYYY/MM/DD', 'h:mm AM/PM', 'm/d/yy h:mm',
              'd"0"m', 'mm:ss', 'yyyy"-W0#?"', 'd\\0m\\0yy', 's', 'y']

XMLOK = st.characters(codec='utf-8', exclude_categories=('Cs',), exclude_characters='￾￿')
words = st.sampled_from(['speed', 'RPT', 'höjd', 'Ω m', 'a b', '1', '1.5', '-3', 'TRUE', '#N/A', 'None',
                         'nan', '_', '_x', 'x_y_z', '_x0041_', '_x005F_', '_x000d_', '_x00zz_', '__x0041__',
                         '日本語', '😀 ok', 'a\nb', 'tab\there', '<&>"\'', ' lead', 'trail ', '  ', '\n',
                         '=A1+1', "'q", 'é', 'ÿ', 'Ā', 'x' * 40])
texts = st.one_of(words, words, st.text(XMLOK, min_size=1, max_size=8), st.just(''),
                  st.text('ab _x04F', min_size=1, max_size=12),
                  st.sampled_from(['long text, ' * 9, 'ö' * 130, 'Ωz' * 60, 'k' * 255]))
nums = st.one_of(
    st.integers(-10, 100).map(float), st.integers(-10**6, 10**6).map(lambda i: i / 100.0),
    st.integers(-2**29, 2**29 - 1).map(float), st.integers(-2**29, 2**29 - 1).map(lambda i: i / 100.0),
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, 0.1, 1e300, -1e-300, 1e-5, 123456789012.0, 65535.0, 65536.0, 0.5, -0.25,
                     2.0**53, 5e-324, 1.0 / 3, 536870911.0, 536870912.0, -536870912.0, -536870913.0]))
# valid in both date systems; 60 .. 61 is the day Excel invented
serials = st.one_of(
    st.integers(0, 2957002).filter(lambda d: d != 60).map(float),
    st.integers(1, 59).map(float),
    st.tuples(st.one_of(st.integers(36000, 46000), st.integers(0, 59), st.integers(61, 2957002)),
              st.integers(0, 86399999)).map(lambda t: t[0] + t[1] / 86400000.0),
    st.tuples(st.integers(36000, 46000), st.integers(0, 86399)).map(lambda t: t[0] + t[1] / 86400.0),
    st.sampled_from([0.0, 0.5, 0.999, 1.0, 59.0, 59.5, 61.0, 62.25, 366.0, 36525.0, 36526.0, 43890.0, 43891.0,
                     1461.0, 2957002.0, 44196.99999]))

styles = st.lists(st.one_of(
    st.sampled_from(NUM_IDS + DATE_IDS).map(lambda i: ['id', i]),
    st.sampled_from(NUM_CODES + DATE_CODES).map(lambda c: ['code', c])), max_size=5).map(
        lambda l: [['id', 0], ['id', 14]] + l)


def builtin(v):
    return BUILTIN.get(v, 'd' if v in DATE_MORE else '0')


def style_is_date(style):
    if style[0] in ('numc', 'datec'):  # generated, of known meaning
        return style[0] == 'datec'
    return style[1] in (DATE_IDS + DATE_MORE if style[0] == 'id' else DATE_CODES)


def style_of(styles, kind, k):
    """The k-th style of the book that is (kind 'd') or is not (other) a date format."""
    ok = [i for i, s in enumerate(styles) if style_is_date(s) == (kind == 'd')]
    return ok[k % len(ok)]


small = st.integers(0, 7)
cell_n = st.tuples(st.just('n'), nums, small).map(list)
cell_d = st.tuples(st.just('d'), serials, small).map(list)
cell_t = st.tuples(st.just('t'), texts, st.integers(0, 11)).map(list)
cell_b = st.tuples(st.just('b'), st.integers(0, 1), small).map(list)
cell_e = st.tuples(st.just('e'), st.sampled_from(sorted(ERRORS)), small).map(list)
cell_z = st.tuples(st.just('z'), small).map(list)
missing = st.one_of(st.none(), cell_e, cell_z)
any_cell = st.one_of(st.none(), cell_n, cell_n, cell_d, cell_t, cell_t, cell_b, cell_e, cell_z)


@st.composite
def column_cells(draw, maxn=7):
    kind = draw(st.sampled_from(['n', 'n', 'nm', 't', 'tm', 'd', 'dm', 'b', 'bm', 'm', 'any', 'any', 'nt', 'nd']))
    pool = {'n': cell_n, 't': cell_t, 'd': cell_d, 'b': cell_b, 'm': missing}
    elem = any_cell if kind == 'any' else st.one_of(*[pool[k] for k in kind])
    return draw(st.lists(elem, min_size=1, max_size=maxn))


rows = st.one_of(st.integers(1, 6), st.integers(1, 12), st.integers(1, 40),
                 st.sampled_from([0, 1, 99, 100, 255, 256, 257, 300, 1000]))
sheet_chars = st.characters(codec='utf-8', exclude_categories=('Cs', 'Cc', 'Cn'),
                            exclude_characters='[]:*?/\\\'￾￿')
sheet_name = st.one_of(st.sampled_from(['Sheet1', 'Data', 'a b', 'mätdata', 'Blad 2', '1', '数据', '<&>', '_x0041_']),
                       st.text(sheet_chars, min_size=1, max_size=31).filter(lambda s: s.strip() == s))


@st.composite
def sheet(draw, maxcols=9, tall=True):
    ncols = draw(st.integers(0, maxcols)) if draw(st.integers(0, 11)) == 0 else draw(st.integers(1, maxcols))
    n = draw(rows if tall else st.integers(1, 14))
    if n > 60:
        ncols = min(ncols, 3)
    cols = []
    for _ in range(ncols):
        cols.append({'gap': draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2])),
                     'head': draw(st.one_of(cell_t, cell_t, cell_t, any_cell)),
                     'v': draw(column_cells())})
    return {'name': draw(sheet_name), 'n': n, 'cols': cols,
            'r0': draw(st.sampled_from([0, 0, 0, 0, 1, 3, 9])),
            'c0': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 24, 25])),
            'extra': draw(st.one_of(st.just([]), st.lists(st.tuples(
                st.integers(0, 30), st.integers(0, 60), any_cell).map(list), max_size=3))),
            'merge': draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
                st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([99, 254, 255, 256, 300])),
                st.integers(0, 20), st.integers(0, 3), st.integers(0, 3)).map(list),
                min_size=1, max_size=2))),
            'chart': draw(st.integers(0, 9)) == 0,
            'state': draw(st.sampled_from([0, 0, 0, 1, 2]))}


def cells_of(spec, has_head=True):
    """{(row, col): cell} of a sheet description, None cells left out."""
    out = {}
    c = spec['c0']
    for col in spec['cols']:
        c += col['gap']
        if has_head and col['head'] is not None:
            out[spec['r0'], c] = col['head']
        v = col['v']
        for i in range(spec['n']):
            cell = v[i % len(v)]
            if cell is not None:
                out[spec['r0'] + 1 + i, c] = cell
        c += 1
    for r0, n, c0, m, vals in spec.get('fill', ()):
        for r in range(r0, r0 + n):
            for c in range(c0, c0 + m):
                cell = vals[(r + c) % len(vals)] if vals else ['t', 's%d %d' % (r, c), 0]
                if cell is not None:
                    out[r, c] = cell
    for r, c, cell in spec['extra']:
        if cell is None:
            out.pop((r, c), None)
        else:
            out[r, c] = cell
    return out


class Sheet(object):
    """What a reader has to see: dimensions, type and value of each cell."""

    def __init__(self, name, cells, merges=(), merge_counts=True):
        self.name = name
        self.cells = {}
        for pos, cell in cells.items():
            tv = typed(cell)
            if tv is not None:
                self.cells[pos] = tv
        self.merges = list(merges)
        self.blanks = set(pos for pos, cell in cells.items() if cell[0] == 'z')
        self.nrows = max([r + 1 for r, c in self.cells] + [0])
        self.ncols = max([c + 1 for r, c in self.cells] + [0])
        if merge_counts:
            for r, c, dr, dc in merges:
                self.nrows = max(self.nrows, r + dr + 1)
                self.ncols = max(self.ncols, c + dc + 1)

    def at(self, r, c):
        return self.cells.get((r, c), (EMPTY, ''))

    def column(self, c, r1, r2):
        """The channel made of rows r1 .. r2 - 1 of column c."""
        tv = [self.at(r, c) for r in range(r1, r2)]
        return tv


def typed(cell):
    k = cell[0]
    if k == 'z':
        return None
    if k == 'n':
        return (NUMBER, cell[1])
    if k == 'd':
        return (DATE, cell[1])
    if k == 't':
        return (TEXT, cell[1])
    return ({'b': BOOL, 'e': ERROR}[k], cell[1])


def date_ok(value, serial, datemode):
    """value is the moment of that serial, to the millisecond."""
    if type(value) is not datetime.datetime:
        return False
    base = datetime.datetime(1904, 1, 1)
    if not datemode:
        base = datetime.datetime(1899, 12, 31 if serial < 60 else 30)
    got = value - base
    ms = Fraction(got.days * 86400 + got.seconds) * 1000 + Fraction(got.microseconds, 1000)
    want = Fraction(serial) * 86400000
    return ms.denominator == 1 and abs(ms - want) <= Fraction(6, 10)


def to_date(serial, datemode):
    base = datetime.datetime(1904, 1, 1)
    if not datemode:
        base = datetime.datetime(1899, 12, 31 if serial < 60 else 30)
    return base + datetime.timedelta(milliseconds=int(round(Fraction(serial) * 86400000)))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def channel_problem(array, tv, datemode):
    """None, or what is wrong with the channel read from the (type, value) cells tv."""
    if not isinstance(array, np.ndarray) or array.ndim != 1:
        return 'not a 1d array: %r' % (array,)
    if len(array) != len(tv):
        return '%d elements, expected %d' % (len(array), len(tv))
    kinds = set(t for t, v in tv)
    gone = {EMPTY, ERROR, BLANK}
    if not kinds - gone - {NUMBER}:
        want = [v if t == NUMBER else float('nan') for t, v in tv]
        if array.dtype != np.array(want).dtype:
            return 'dtype %s of numbers' % array.dtype
    elif not kinds - gone - {TEXT}:
        want = [v if t == TEXT else '' for t, v in tv]
        if array.dtype.kind != 'U':
            return 'dtype %s of text' % array.dtype
    else:
        want = []
        for i, (t, v) in enumerate(tv):
            if t == DATE:
                got = array[i]
                # the two neighbouring milliseconds are both right for a serial in between
                exact = to_date(v, datemode)
                v = got if date_ok(got, v, datemode) else exact
            elif t == BOOL:
                v = bool(v)
            elif t in gone:
                v = None
            want.append(v)
    ref = np.array(want)
    if array.dtype != ref.dtype and not (array.dtype.kind == ref.dtype.kind == 'U'):
        return 'dtype %s, expected %s' % (array.dtype, ref.dtype)
    for i, (a, b) in enumerate(zip(array.tolist(), ref.tolist())):
        if not same(a, b):
            return 'element %d is %r, expected %r' % (i, a, b)
    return None


def colname(c):
    s = ''
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = string.ascii_uppercase[r] + s
    return s


def addr(r, c):
    return colname(c) + str(r + 1)


def unique_names(specs, limit=31):
    out, seen = [], set()
    for i, s in enumerate(specs):
        name = s['name']
        while name.lower() in seen:
            name = name[:limit - 4] + '~%d' % i
            i += 1
        seen.add(name.lower())
        out.append(name)
    return out


@st.composite
def far_sheet(draw, maxrow, maxcol):
    """Few cells, far away; or a long row or column."""
    rows_ = [i for i in (0, 1, 127, 255, 256, 1023, 8191, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 70000)
             if i <= maxrow]
    cols_ = [i for i in (0, 1, 25, 26, 51, 52, 127, 128, 254, 255, 256, 700, 701, 702, 703, 1023, 16383) if i <= maxcol]
    how = draw(st.sampled_from(['row', 'row', 'rows', 'down', 'apart', 'apart', 'apart', 'both', 'both', 'texts']))
    extra, fill = [], []
    vals = draw(st.lists(any_cell, min_size=1, max_size=6))
    if how in ('row', 'rows'):          # MULRK, MULBLANK of any length
        kind = draw(st.sampled_from([cell_n, cell_d, cell_z, any_cell]))
        vals = draw(st.lists(kind, min_size=1, max_size=5))
        c0 = draw(st.sampled_from([0, 0, 1, 3]))
        n = draw(st.sampled_from([20, 100, 170, 171, 200, 254, 255, 256, maxcol + 1]))
        fill = [[draw(st.sampled_from(rows_[:6] if n < 300 else rows_[:2])), 1 if how == 'row' else 3, c0, min(n, maxcol + 1 - c0), vals]]
    elif how == 'texts':        # more than a two byte number can count
        fill = [[0, draw(st.integers(8190, 8300)), 0, 8, None]]
    elif how == 'down':
        fill = [[0, draw(st.sampled_from(rows_)) + 1, draw(st.integers(0, 2)), 1, draw(st.sampled_from([None, vals]))]]
    else:
        a, b = draw(st.sampled_from(rows_)), draw(st.sampled_from(cols_))
        if how == 'apart' or (a + 1) * (b + 1) > 400000:
            extra = [[a, draw(st.integers(0, 2)), vals[0]], [draw(st.integers(0, 2)), b, vals[-1]]]
            if (a + 1) * (b + 1) > 400000:
                extra[1][1] = min(b, 4)
        else:
            extra = [[a, b, vals[0]]]
        for v in vals[1:]:
            extra.append([draw(st.integers(0, a)), draw(st.integers(0, min(b, 4))), v])
    return {'name': 'far', 'n': 0, 'cols': [], 'r0': 0, 'c0': 0, 'extra': extra, 'fill': fill, 'merge': [],
            'chart': False, 'state': 0}


def farthest(spec):
    cells = [e[:2] for e in spec['extra']] + [[r + n - 1, c + m - 1] for r, n, c, m, v in spec['fill']] + [[0, 0]]
    return max(r for r, c in cells), max(c for r, c in cells)
