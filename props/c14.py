"""C14: lazy_textpack finds names, delimiter, decimal sign and first line of numeric files."""
import io
import re

import numpy as np
from hypothesis import strategies as st

from channelpack import lazy_textpack
from core import Sub, Scratch, harness, require, raises, short
import gens
import textgen

RULE = ('A case is a generated numeric table (1 to 600 columns, 1 to 600 rows, decimal point or comma, '
        'signs, exponents), with or without a line of names, below a header of up to 18 lines of '
        'free text, read with lazy_textpack by name, text or byte stream with a generated number of '
        'lines to pre-parse and overriding arguments; compared with the table. The second generator '
        'makes sources without a parsable data line: ValueError. Non-trivial: 2 or more rows and a '
        'header, a decimal comma or an override.')
ASSUMPTIONS = [
    'all lines that are pre-parsed from the first data line on are complete rows of plain numbers '
    'with one and the same delimiter; the line above the data holds no digit',
    'with a comma as delimiter (no space after it) every number has a decimal point; in a decimal '
    'comma file the last line pre-parsed and the first data line hold a comma']

DELIMS = [';', '\t', ' ', '  ', '|', ',', ', ', ' ; ', ':', '\t\t', ' | ', '; ', '::']
dot = st.one_of(
    st.builds(lambda s, a, b: '%s%d.%s' % (s, a, b), st.sampled_from(['', '', '-', '+']),
              st.integers(0, 99999), st.from_regex(r'\A[0-9]{1,6}\Z')),
    st.sampled_from(['0.0', '-0.5', '1.5e5', '2.25E-3', '-1.0e+10', '123456.789012', '1.0']))
whole = st.one_of(st.integers(-9, 99).map(str), st.integers(-10**6, 10**6).map(str),
                  st.sampled_from(['0', '+7', '1e5', '-3E2', '007', '1e-7']))
odd = st.sampled_from(['.5', '5.', '-.25', '+.5e3', '0.', '.125'])
letters = 'abcdefxyzABCZ_åé'


@st.composite
def name(draw, delim):
    first = draw(st.sampled_from('abcdxyzABCÅé'))
    rest = letters + '()/%[]#"\'' + ('' if ' ' in delim or '\t' == delim else ' ')
    rest = ''.join(c for c in rest if c not in delim)
    return (first + draw(st.text(rest, max_size=8))).strip()


@st.composite
def cases(draw):
    ncols = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6, 10]))
    delim = draw(st.sampled_from(DELIMS))
    dec = '.' if ',' in delim else draw(st.sampled_from(['.', '.', ',']))
    if delim == ',' and ncols > 1:
        number = dot
    elif dec == ',':
        number = st.one_of(dot, dot, whole, odd)
    else:
        number = st.one_of(dot, whole, whole, odd)
    nbase = draw(st.integers(1, 6))
    rows = [[draw(number).replace('.', dec) for _ in range(ncols)] for _ in range(nbase)]
    tile = draw(st.sampled_from([1] * 20 + [4, 60])) if ncols > 1 else 1
    rows = [r * tile for r in rows]
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 40), st.sampled_from([24, 25, 26, 600])))
    named = draw(st.booleans())
    names = [draw(name(delim if ncols * tile > 1 else ' ')) for _ in range(ncols)] * tile if named else None
    ncols *= tile
    free = st.text(letters + ' 0123456789.,;:#-\t', max_size=25).map(str.strip)
    hash_ = st.text(letters + ' 0123456789.,;:', max_size=20).map(lambda s: '# ' + s)
    count = draw(st.sampled_from([0, 0, 1, 3, 8, 18]))
    header = draw(st.lists(free if named else hash_, min_size=0, max_size=count))
    below = []
    if named:
        if ncols > 1 and draw(st.integers(0, 4)) == 0:
            below = [draw(st.sampled_from(['------', '', '=====']))]
    elif header:
        header[-1] = ''.join(c for c in header[-1] if not c.isdigit())
    first = len(header) + named + len(below)
    parse = draw(st.sampled_from([25, 25, 25, first + 1, first + 2, first + n, first + n + 1, 60]))
    if parse <= first:
        parse = first + draw(st.integers(1, 5))
    last = min(parse, first + n) - first - 1       # index of the last row pre-parsed
    if dec == ',':
        for i in {0, last % nbase}:
            if not any(re.search('[0-9],[0-9]', f) for f in rows[i]):
                rows[i][draw(st.integers(0, ncols - 1))] = '2,5'
    tail_missing = draw(st.booleans()) and ncols > 1 and ' ' not in delim and delim != '\t\t'
    vary = draw(st.lists(st.sampled_from(['', '', ' ', '  ', '\t']), min_size=2, max_size=7))
    if not (ncols > 1 and delim.strip() in (';', '|', ':') and not tail_missing and draw(st.integers(0, 2)) == 0):
        vary = None
    return {'vary': vary, 'delim': delim, 'dec': dec, 'rows': rows, 'n': n, 'names': names, 'header': header,
            'below': below, 'parse': parse, 'missing': tail_missing,
            'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
            'tail': draw(st.sampled_from(['', '', '\n', '\n\n', '  \n' if delim != ' ' else ''])),
            'finaleol': draw(st.booleans()),
            'lead': draw(st.sampled_from(['', '', '', ' '])) if delim.strip() else '',
            'encoding': draw(st.sampled_from([None, 'utf-8', 'latin-1'])),
            'source': draw(st.sampled_from(['path', 'path', 'stringio', 'bytesio', 'binfile',
                                            'textfile', 'offset', 'offset-bytes'])),
            'override': draw(st.sampled_from([None, None, None, 'usecols', 'usecols-int', 'names',
                                              'skiprows', 'delimiter', 'converters', 'debug', 'none'])),
            'none': draw(st.sampled_from(['usecols', 'names', 'delimiter', 'converters', 'encoding'])),
            'cols': draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, 700)), min_size=1, max_size=4))}


def times(s):
    if isinstance(s, bytes):
        s = s.decode('ascii')
    return float(s.replace(',', '.')) * 10 if s.strip() else -1.0


def check(case, cov):
    with harness():
        rows = case['rows']
        n, delim = case['n'], case['delim']
        ncols = len(rows[0])
        lines = list(case['header'])
        if case['names']:
            lines.append(delim.join(case['names']))
        lines += case['below']
        first = len(lines)
        values = []
        texts = []
        for i in range(n):
            row = list(rows[i % len(rows)])
            if case['missing'] and first + i >= case['parse'] and i % 3 == 0:
                row[i % ncols] = ''
            texts.append(row)
            values.append([float(f.replace(',', '.')) if f else float('nan') for f in row])
            if case['vary']:        # aligned columns: white space around each delimiter
                v = case['vary']
                line = row[0]
                for j, f in enumerate(row[1:]):
                    line += v[(i + j) % len(v)] + delim.strip() + v[(i * 3 + j + 1) % len(v)] + f
            else:
                line = delim.join(row)
            lines.append(case['lead'] + line)
        eol = case['eol']
        text = eol.join(lines) + (eol if case['finaleol'] or case['tail'] else '')
        text += case['tail'].replace('\n', eol)
        enc = case['encoding'] or 'utf-8'
        blob = text.encode(enc, 'replace')
        text = blob.decode(enc)
        path = Scratch.write('lazy.txt', blob)
        kw = {}
        if case['parse'] != 25:
            kw['parselines'] = case['parse']
        bytesy = case['source'] in ('bytesio', 'binfile', 'offset-bytes')
        if case['encoding'] and (bytesy or case['source'] == 'path'):
            kw['encoding'] = enc
        cols = list(range(ncols))
        names = {}
        if case['names']:
            names = dict(enumerate([nm.encode(enc, 'replace').decode(enc)
                                    for nm in case['names']]))
        sel = [c % ncols for c in case['cols']]
        drop = 0
        conv = None
        ov = case['override']
        if ov == 'usecols':
            kw['usecols'] = sel
            cols = sorted(set(sel))
        elif ov == 'usecols-int':
            kw['usecols'] = sel[0]
            cols = sel[:1]
        elif ov == 'names':
            names = {c: 'n%d' % c for c in sel}
            kw['names'] = dict(names)
            cols = sorted(set(sel))
        elif ov == 'skiprows' and n > 1 and (case['dec'] != ',' or n < 3):
            drop = 1 if case['dec'] != ',' else 0
            kw['skiprows'] = first + drop
        elif ov == 'delimiter' and ncols > 1:
            d = delim.strip() or delim
            kw['delimiter'] = d.encode() if bytesy else d
        elif ov == 'converters':
            conv = sel[0]
            kw['converters'] = {conv: times}
        elif ov == 'none':      # the default of textpack, in place of what was derived
            what = case['none']
            if what == 'names':
                names = {}
            if what in ('usecols', 'names', 'converters') or (
                    what == 'delimiter' and (ncols == 1 or not delim.strip()) and not case['missing']) or (
                    what == 'encoding' and enc == 'utf-8'):
                kw[what] = None
        elif ov == 'debug':
            kw['debug'] = True
        if case['names'] and ov in ('usecols', 'usecols-int'):
            names = {c: names[c] for c in cols}
        source = path
        fo = None
        if case['source'] == 'stringio':
            fo = io.StringIO(text)
        elif case['source'] == 'bytesio':
            fo = io.BytesIO(blob)
        elif case['source'] == 'binfile':
            fo = io.open(path, 'rb')
        elif case['source'] == 'textfile':
            fo = io.open(path, encoding=enc)
        elif case['source'] == 'offset':
            fo = io.StringIO('1 2 3\n4 5\n' + text)
            fo.seek(10)
        elif case['source'] == 'offset-bytes':
            fo = io.BytesIO(b'1 2 3\n4 5\n' + blob)
            fo.seek(10)
        source = fo if fo is not None else path
    what = 'lazy_textpack from %s of %s with %r' % (case['source'], short(text, 500), kw)
    pack = lazy_textpack(source, **kw)
    require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what, sorted(pack.data),
            cols)
    for c in cols:
        if c == conv:
            want = [times(r[c]) for r in texts]
        else:
            want = [r[c] for r in values[drop:]]
        require(textgen.same_column(pack(c), want, 'num'), '{}: column {} is {}, expected {}',
                what, c, pack(c), want)
    require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
    if case['source'] in ('path', 'binfile', 'textfile'):
        require(pack.fn == path, '{}: fn {}', what, pack.fn)
    if fo is not None:
        require(not fo.closed, '{}: the stream of the caller was closed', what)
        fo.close()
    cov.tag('delimiter %r' % delim, 'source ' + case['source'])
    cov.tagif(case['dec'] == ',', 'decimal comma')
    cov.tagif(case['names'], 'names')
    cov.tagif(first, 'header')
    cov.tagif(ov, 'override %s' % ov)
    cov.tagif(case['missing'] and first + n > case['parse'], 'missing beyond the pre-parsed lines')
    return bool(n > 1 and (first or case['dec'] == ',' or ov))


words = st.text('abc xyz#:;,-', max_size=12)
hopeless = st.one_of(
    st.lists(words, max_size=30),                                      # no number anywhere
    st.lists(st.sampled_from(['', ' ', '\t']), max_size=30),
    st.tuples(st.lists(words, max_size=5),
              st.sampled_from(['1;2|3', '1;2;3|4', '1 ; 2 | 3', 'x 5 y', '5x', '12:30;1', 'a1',
                               '1 apples', '#7'])).map(lambda t: t[0] + [t[1]]))
fail_cases = st.fixed_dictionaries({
    'lines': hopeless, 'source': st.sampled_from(['path', 'stringio', 'bytesio']),
    'parse': st.sampled_from([None, 1, 40]), 'eol': st.booleans()})


def check_fail(case, cov):
    with harness():
        lines = case['lines']
        text = '\n'.join(lines) + ('\n' if case['eol'] else '')
        parse = case['parse'] or 25
        if lines and any(c.isdigit() for c in lines[-1]):
            parse = max(parse, len(lines) + 2)
        path = Scratch.write('fail.txt', text.encode())
        source = {'path': path, 'stringio': io.StringIO(text),
                  'bytesio': io.BytesIO(text.encode())}[case['source']]
        kw = {} if parse == 25 else {'parselines': parse}
    raises(ValueError, lambda: lazy_textpack(source, **kw),
           'lazy_textpack from %s of %r with %r' % (case['source'], text, kw))
    cov.tagif(not text.strip(), 'blank source')
    return bool(text)


SUBS = [Sub('numeric files', cases(), check, 6000, rule=RULE),
        Sub('hopeless files', fail_cases, check_fail, 1500, rule='non-empty source')]
