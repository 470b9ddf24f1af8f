"""C25: cell addresses and column letters mean the cell they name, or are refused."""
from hypothesis import strategies as st

from channelpack import sheetpack, xlrd, readxl
from core import Sub, Scratch, harness, require, raises, short
import anybook
import sheetgen as sg
import xlsxw

RULE = {
    'notation': ('A case is up to 15 addresses, column letters, usecols strings and sequences, valid (any column up to '
                 'XFD and beyond, any row, any case) or broken (trailing or leading characters, row 0, no column, '
                 'signs, dollar signs, white space, non-letters); letter2num, cellreference, normalize_usecols, '
                 'xlrd.colname and xlrd.cellname are compared with bijective base 26 computed here, broken ones must '
                 'raise. Non-trivial: a column of two letters or more, or a broken one.'),
    'wide': ('A case is an xlsx or xls workbook with a few cells at any address (to column XFD, 256 for xls) and '
             'sheetpack calls with start, stop, header and usecols by letters around them; a broken address or usecols '
             'in any argument must raise and never give another cell. Non-trivial: a cell in column AA or later.')}

cols = st.one_of(st.integers(0, 30), st.integers(0, 16383), st.integers(600, 800),
                 st.sampled_from([0, 25, 26, 27, 51, 52, 255, 256, 675, 676, 701, 702, 703, 1023, 16383, 18277, 18278]))
rowx = st.one_of(st.integers(0, 20), st.integers(0, 1048575), st.sampled_from([8, 9, 98, 99, 65535, 1048575]))
broken_addr = st.one_of(
    st.sampled_from(['C7foo', 'C7:H9', 'C7 ', ' C7', 'C 7', '$C$7', 'C$7', 'C0', 'C00', '7', '7C', 'C-7', 'C+7', 'C7.5',
                     'C7,D8', 'Å5', 'C7\n', ':', '-', '$', 'C7C', 'C_7', '1', '0', ' ', 'A1!', 'R1C1C', 'B2;', 'A1\x00']),
    st.tuples(st.sampled_from('ABZ'), st.integers(1, 99), st.sampled_from(' :$-+.,;xyZ_!\n\t')).map(
        lambda t: '%s%d%s' % t))
broken_use = st.one_of(
    st.sampled_from(['A1', '1', 'A-C', 'A:B:C', ':C', 'A:', 'A;B', 'A B', '$A', 'A:$C', 'A:3', '0', 'A.B', 'A:C:', 'É',
                     'A,1', 'A:B,C2', '-1', 'A:B C', ':', 'A,:', '2:4']),
    st.lists(st.sampled_from(['A', 'C', 'B:D', 'AA']), max_size=2).map(lambda l: ','.join(l + ['A:1'])))
swap = st.sampled_from(['upper', 'lower', 'swap'])
piece = st.tuples(cols, st.one_of(st.none(), st.integers(0, 5))).map(list)
items = st.one_of(
    st.fixed_dictionaries({'k': st.just('addr'), 'r': rowx, 'c': cols, 'case': swap, 'zeros': st.sampled_from([0, 0, 0, 1, 2])}),
    st.fixed_dictionaries({'k': st.just('letters'), 'r': rowx, 'c': cols, 'case': swap}),
    st.fixed_dictionaries({'k': st.just('use'), 'p': st.lists(piece, min_size=1, max_size=5), 'case': swap,
                           'sep': st.sampled_from([',', ', ', ' ,', ' , ', ',,', ',\t'])}),
    st.fixed_dictionaries({'k': st.just('ints'), 'p': st.lists(cols, min_size=1, max_size=6),
                           'form': st.sampled_from(['list', 'tuple', 'range', 'str'])}),
    st.fixed_dictionaries({'k': st.just('plain'), 'r': rowx, 'c': cols}),
    st.fixed_dictionaries({'k': st.just('badaddr'), 's': broken_addr}),
    st.fixed_dictionaries({'k': st.just('baduse'), 's': broken_use}))
cases = st.fixed_dictionaries({'items': st.lists(items, min_size=1, max_size=15)})


def recase(s, how):
    if how == 'swap':
        return ''.join(c.lower() if i % 2 else c.upper() for i, c in enumerate(s))
    return s.lower() if how == 'lower' else s.upper()


def use_string(pieces, sep, case):
    text, want = [], []
    for c, n in pieces:
        if n is None:
            text.append(sg.colname(c))
            want.append(c)
        else:
            text.append(sg.colname(c) + ':' + sg.colname(c + n))
            want.extend(range(c, c + n + 1))
    return recase(sep.join(text), case), want


def check(case, cov):
    rich = False
    for it in case['items']:
        k = it['k']
        cov.tag(k)
        if k in ('badaddr', 'baduse'):
            s = it['s']
            if k == 'badaddr':
                raises(Exception, lambda: readxl.cellreference(xladdr=s), 'cellreference(xladdr=%r)' % s)
            else:
                raises(Exception, lambda: readxl.normalize_usecols(s), 'normalize_usecols(%r)' % s)
            rich = True
            continue
        if k == 'plain':
            got = readxl.cellreference(it['r'], it['c'])
            require(tuple(got) == (it['r'], it['c']), 'cellreference({}, {}) is {}', it['r'], it['c'], got)
            name = sg.colname(it['c'])
            require(xlrd.colname(it['c']) == name, 'xlrd.colname({}) is {}, expected {}', it['c'],
                    xlrd.colname(it['c']), name)
            require(xlrd.cellname(it['r'], it['c']) == name + str(it['r'] + 1), 'xlrd.cellname({}, {}) is {}', it['r'],
                    it['c'], xlrd.cellname(it['r'], it['c']))
            want = '$%s$%d' % (name, it['r'] + 1)
            require(xlrd.cellnameabs(it['r'], it['c']) == want, 'xlrd.cellnameabs({}, {}) is {}', it['r'], it['c'],
                    xlrd.cellnameabs(it['r'], it['c']))
        elif k == 'letters':
            s = recase(sg.colname(it['c']), it['case'])
            got = readxl.letter2num(s)
            require(got == it['c'], 'letter2num({}) is {}, expected {}', s, got, it['c'])
            got = readxl.letter2num(s, zbase=False)
            require(got == it['c'] + 1, 'letter2num({}, zbase=False) is {}, expected {}', s, got, it['c'] + 1)
            got = readxl.cellreference(row=it['r'], col=3, xladdr=s)
            require((got.row, got.col) == (it['r'], it['c']), 'cellreference(row={}, xladdr={}) is {}', it['r'], s, got)
        elif k == 'addr':
            s = recase(sg.colname(it['c']), it['case']) + '0' * it['zeros'] + str(it['r'] + 1)
            got = readxl.cellreference(xladdr=s)
            require((got.row, got.col) == (it['r'], it['c']) and tuple(got) == (it['r'], it['c']),
                    'cellreference(xladdr={}) is {}, expected row {} and column {}', s, got, it['r'], it['c'])
            got = readxl.cellreference(5, 6, s)
            require(tuple(got) == (it['r'], it['c']), 'cellreference(5, 6, {}) is {}', s, got)
        elif k == 'use':
            s, want = use_string(it['p'], it['sep'], it['case'])
            got = readxl.normalize_usecols(s)
            require(list(got) == sorted(want), 'normalize_usecols({}) is {}, expected {}', s, got, sorted(want))
        else:
            seq = {'list': list, 'tuple': tuple, 'range': lambda p: range(p[0], p[0] + len(p)),
                   'str': lambda p: [str(i) for i in p]}[it['form']](it['p'])
            got = readxl.normalize_usecols(seq)
            want = sorted(int(i) for i in seq)
            require(list(got) == want, 'normalize_usecols({}) is {}, expected {}', seq, got, want)
        rich |= it.get('c', 0) > 25
    return rich


far_x = st.one_of(st.integers(0, 60), st.integers(0, 16383), st.sampled_from([25, 26, 701, 702, 703, 16383]))
calls = st.lists(st.fixed_dictionaries({
    'i': st.integers(0, 20), 'j': st.integers(0, 20), 'case': swap, 'how': st.sampled_from(['cell', 'use', 'header', 'stop']),
    'bad': st.sampled_from([None, None, None, 'startcell', 'stopcell', 'header', 'usecols']),
    'badaddr': broken_addr, 'baduse': broken_use}), min_size=1, max_size=5)


@st.composite
def wide_cases(draw):
    fmt = draw(st.sampled_from(['xlsx', 'xlsx', 80]))
    c = far_x if fmt == 'xlsx' else st.one_of(st.integers(0, 60), st.integers(0, 255), st.sampled_from([25, 26, 255]))
    extra = draw(st.lists(st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 30)), c, sg.cell_n).map(list), min_size=2,
                          max_size=6, unique_by=lambda t: (t[0], t[1])))
    sheet = {'name': 'S', 'n': 0, 'r0': 0, 'c0': 0, 'extra': extra, 'merge': [], 'chart': False, 'state': 0, 'cols': []}
    case = {'fmt': fmt, 'sheets': [sheet], 'styles': [['id', 0], ['id', 14]], 'date1904': 0}
    if fmt == 'xlsx':
        case['x'] = draw(xlsxw.options)
    else:
        import xlsw
        case['x'] = draw(st.fixed_dictionaries(dict(xlsw.options, ver=st.just(fmt), raw=st.just(0), big=st.none(),
                                                    frag=st.just(0))))
    case['calls'] = draw(calls)
    return case


def check_wide(case, cov):
    with harness():
        w = anybook.writer(case)
        path = Scratch.write('b' + anybook.suffix(case), w.blob)
        sheet = w.sheets[0]
        spots = sorted(sheet.cells)
    with xlrd.open_workbook(path) as book:
        ws = book.sheet_by_index(0)
        require((ws.nrows, ws.ncols) == (sheet.nrows, sheet.ncols), 'dimensions {}, expected {}', (ws.nrows, ws.ncols),
                (sheet.nrows, sheet.ncols))
        for (r, c), tv in sorted(sheet.cells.items()):
            got = ws.cell_type(r, c), ws.cell_value(r, c)
            require(got == tv, 'cell {} is {}, expected {}', sg.addr(r, c), got, tv)
        filled = sum(t != 0 for r in range(ws.nrows) for t in ws.row_types(r))
        require(filled == len(sheet.cells), '{} cells filled, expected {}', filled, len(sheet.cells))
    for call in case['calls']:
        with harness():
            (r1, c1), (r2, c2) = spots[call['i'] % len(spots)], spots[call['j'] % len(spots)]
            r1, r2, c1, c2 = min(r1, r2), max(r1, r2), min(c1, c2), max(c1, c2)
            kw = {'startcell': recase(sg.addr(r1, c1), call['case']), 'header': False,
                  'stopcell': recase(sg.addr(r2, c2), call['case'])}
            want = list(range(c1, c2 + 1))
            names = {}
            if call['how'] == 'use':
                want = sorted({c1, c2, (c1 + c2) // 2})
                kw['usecols'] = recase(', '.join(sg.colname(c) for c in reversed(want)), call['case'])
            elif call['how'] == 'header':
                want = sorted({c1, c2})
                kw['usecols'] = want[::-1]
                kw['header'] = recase(sg.addr(r2, c2), call['case'])
                names = {c: sheet.at(r2, c)[1] for c in want}
            elif call['how'] == 'stop':
                del kw['startcell']
                want = sorted({c1, c2})
                kw['usecols'] = recase(','.join(sg.colname(c) for c in want), call['case'])
                r1 = 0
            if call['bad'] == 'usecols':
                kw['usecols'] = call['baduse']
            elif call['bad']:
                kw[call['bad']] = call['badaddr']
        what = 'sheetpack(%s)' % ', '.join('%s=%r' % t for t in sorted(kw.items()))
        if call['bad']:
            raises(Exception, lambda: sheetpack(path, **kw), what)
            cov.tag('broken ' + call['bad'])
            continue
        pack = sheetpack(path, **kw)
        require(sorted(pack.data) == want, '{}: channels {}, expected {}', what, short(sorted(pack.data)), short(want))
        require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
        for c in want:
            bad = sg.channel_problem(pack.data[c], sheet.column(c, r1, r2 + 1), w.datemode)
            require(bad is None, '{}: column {}: {}', what, sg.colname(c), bad)
    return any(c > 25 for r, c in spots)


SUBS = [Sub('notation', cases, check, 8000, rule=RULE['notation']),
        Sub('wide', wide_cases(), check_wide, 800, rule=RULE['wide'])]
