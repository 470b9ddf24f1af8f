"""Generated text tables: a table is generated, rendered to text, and is its own oracle."""
import io

import numpy as np
from hypothesis import strategies as st

import gens

EXTRA = {'utf-8': 'åéµ°€漢😀', 'utf-16': 'åéµ°€漢😀', 'utf-8-sig': 'åéµ€', 'latin-1': 'åéµ°ÿ',
         'cp1252': 'åéµ€', 'ascii': ''}
DELIMS = [None, None, ',', ',', ';', ';', '\t', '\t', '|', ' ', '::', ', ', 'x|']

_int = st.integers(-10**6, 10**6).map(str)
_small = st.integers(-9, 9).map(str)
_dec = st.builds(lambda a, b: '%s.%s' % (a, b), st.integers(-9999, 9999),
                 st.from_regex(r'\A[0-9]{1,6}\Z'))
_odd = st.sampled_from(['0', '-0', '.5', '5.', '+3', '+.25', '1e5', '-1.5E-3', '2e+10', '007',
                        '1e300', '1e-320', '123456789012345678', '0.1', '-.5e2', '1E5'])
_float = st.floats(allow_nan=False, allow_infinity=False).map(repr)
number = st.one_of(_small, _int, _dec, _dec, _odd, _float)
special = st.sampled_from(['nan', 'inf', '-inf', 'NaN', 'Infinity'])


def floatable(tok):
    for t in (tok, tok.replace(',', '.')):
        try:
            float(t)
            return True
        except ValueError:
            pass
    return not tok.isascii() and any(c.isnumeric() for c in tok)


@st.composite
def token(draw, delim, encoding, blank_ok, spaces=True):
    alphabet = 'abcXYZ019-_./()%#"\'+,;:|=<&' + EXTRA[encoding]
    if delim is None or ' ' not in delim:
        alphabet += ' ' if (spaces and delim is not None) else ''
    if delim:
        alphabet = ''.join(c for c in alphabet if c not in delim)
    kind = draw(st.integers(0, 3))
    if kind == 0:
        s = draw(st.sampled_from(['abc', 'x', 'N/A', 'foo-bar', 'abc', 'y', '2021-01-01', '12:30']))
    elif kind == 1:
        s = draw(number)
    else:
        s = draw(st.text(alphabet, min_size=0 if blank_ok else 1, max_size=7))
    s = ''.join(c for c in s if c in alphabet).strip()
    if not s and not blank_ok:
        s = 'q'
    return s


@st.composite
def tables(draw, encodings=('utf-8', 'utf-8', 'latin-1', 'cp1252', 'utf-16', 'utf-8-sig', 'ascii'),
           numeric_only=False, max_cols=7):
    encoding = draw(st.sampled_from(encodings))
    delim = draw(st.sampled_from(DELIMS))
    dec = '.' if delim and ',' in delim else draw(st.sampled_from(['.', '.', ',']))
    ncols = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, max_cols, 12]))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 30),
                       st.sampled_from([1, 2, 3, 100, 250, 400, 1200])))
    stripstrings = draw(st.booleans())
    missing_ok = delim is not None and ncols > 1
    cols = []
    for c in range(ncols):
        last = c == ncols - 1
        can_miss = missing_ok and not (last and delim == ', ')
        if numeric_only or draw(st.integers(0, 3)):
            first = draw(st.one_of(number, number, number, special))
            rest = draw(st.lists(st.one_of(number, number, number, special,
                                           *([st.just('')] if can_miss else [])),
                                 max_size=6))
            style = dec if dec == '.' else draw(st.sampled_from([',', ',', ',', '.']))
            vals = [v.replace('.', style) for v in [first] + rest]
            pad = draw(st.sampled_from([['', ''], ['', ''], [' ', ''], ['', '  '], [' ', ' ']]))
            if delim is None or ' ' in delim or delim == '\t':
                pad = ['', ''] if delim != '\t' else pad
            cols.append({'t': 'num', 'v': vals, 'pad': pad})
        else:
            first = draw(token(delim, encoding, blank_ok=can_miss))
            if floatable(first):
                first = 'q' + first
            rest = draw(st.lists(token(delim, encoding, blank_ok=can_miss), max_size=6))
            pad = ['', '']
            if delim and ' ' not in delim:
                pad = draw(st.sampled_from([['', ''], [' ', ''], ['', ' '], ['  ', ' ']]))
                if not stripstrings:       # the ends of a line are stripped in any case
                    if c == 0 or last:
                        pad = ['', '']
            cols.append({'t': 'str', 'v': [first] + rest, 'pad': pad})
    nums = [c for c in cols if c['t'] == 'num']
    if dec == ',' and nums and not any(',' in c['v'][0] for c in nums):
        # the first line tells that the decimal separator is a comma
        nums[draw(st.integers(0, len(nums) - 1))]['v'][0] = draw(
            st.sampled_from(['1,5', '-0,25', ',5', '10,', '1,5e3']))
    junkchars = 'abc 01;,.:#-\t"' + EXTRA[encoding]
    junk = draw(st.lists(st.text(junkchars, max_size=20), max_size=draw(
        st.sampled_from([0, 1, 4, 20]))))
    names = [draw(token(delim, encoding, blank_ok=missing_ok and not (c == ncols - 1 and delim == ', ')))
             for c in range(ncols)]
    npad = draw(st.sampled_from(['', '', ' '])) if delim and ' ' not in delim else ''
    tile = draw(st.sampled_from([1] * 28 + [5, 150]))
    if tile > 1:                # wide files: the columns over and over
        cols, names, n = cols * tile, names * tile, min(n, 12)
    return {
        'encoding': encoding, 'delim': delim, 'dec': dec, 'n': n, 'cols': cols, 'junk': junk,
        'names': names if draw(st.booleans()) else None, 'npad': npad, 'strip': stripstrings,
        'blanks': draw(st.lists(st.integers(0, 40), max_size=3)),
        'blankline': draw(st.sampled_from([b for b in ('', '', '  ', '\t', ' \t', '\x0c', '\x0b ')
                                           if not delim or delim not in b])),
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'finaleol': draw(st.sampled_from([True, True, False])),
        'sep': draw(st.lists(st.sampled_from([' ', '  ', '\t', ' \t ']), min_size=1, max_size=3)),
        'lead': draw(st.sampled_from(['', '', ' ', '\t'])) if delim is None else '',
        'trail': draw(st.sampled_from(['', '', ' ', '\t', ' \t'])) if delim is None else '',
    }


class Table(object):
    """The rendered text of a generated table, and what has to come out of it."""

    def __init__(self, t):
        self.t = t
        n = t['n']
        self.ncols = len(t['cols'])
        delim = t['delim']
        lines = list(t['junk'])
        self.names = None
        if t['names'] is not None:
            self.names = list(t['names'])
            lines.append(self.join([t['npad'] + s + t['npad'] for s in self.names], 0))
        self.skiprows = len(lines)
        self.first_data_line = len(lines)
        rendered = []
        for c in t['cols']:
            rendered.append([(c['pad'][0] + v + c['pad'][1]) if (v or c['t'] == 'str') else v
                             for v in c['v']])
        blanks = set(t['blanks'])
        for i in range(n):
            lines.append(t['lead'] + self.join([r[i % len(r)] for r in rendered], i) + t['trail'])
            if i in blanks:
                lines.append(t['blankline'])
        self.lines = lines
        text = t['eol'].join(lines)
        if t['finaleol'] or not lines[-1]:
            text += t['eol']
        self.text = text
        self.rendered = rendered

    def join(self, fields, i):
        t = self.t
        if t['delim'] is not None:
            return t['delim'].join(fields)
        out = fields[0]
        for k, f in enumerate(fields[1:]):
            out += t['sep'][(k + i) % len(t['sep'])] + f
        return out

    def blob(self):
        return self.text.encode(self.t['encoding'])

    def raw(self, col):
        """The texts of a column as they stand between the delimiters."""
        r = self.rendered[col]
        if col == 0:
            r = [s.lstrip(' ') for s in r]      # the ends of a line are stripped
        if col == self.ncols - 1:
            r = [s.rstrip(' ') for s in r]
        return [r[i % len(r)] for i in range(self.t['n'])]

    def column(self, col):
        """Expected values, a list."""
        spec = self.t['cols'][col]
        n = self.t['n']
        if spec['t'] == 'num':
            vals = [float(v.replace(',', '.')) if v else float('nan') for v in spec['v']]
        elif self.t['strip']:
            vals = [v.strip() for v in spec['v']]
        else:
            vals = self.rendered[col]
        return [vals[i % len(vals)] for i in range(n)]

    def kwargs(self):
        kw = {}
        if self.t['delim'] is not None:
            kw['delimiter'] = self.t['delim']
        if self.skiprows:
            kw['skiprows'] = self.skiprows
        if self.t['strip']:
            kw['stripstrings'] = True
        return kw

    def bytes_kwargs(self):
        kw = self.kwargs()
        if 'delimiter' in kw:
            kw['delimiter'] = kw['delimiter'].encode(self.t['encoding'])
        return kw


def same_column(got, want, kind):
    """got: array of the pack; want: list of floats or strings."""
    if not isinstance(got, np.ndarray) or got.ndim != 1 or len(got) != len(want):
        return False
    if kind == 'num':
        return got.dtype == np.dtype(float) and gens.same(got, np.array(want, dtype=float))
    return got.dtype.kind == 'U' and got.tolist() == list(want)
