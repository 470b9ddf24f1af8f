"""C21: sheetpack returns exactly the cells of the range asked for."""
from hypothesis import strategies as st

from channelpack import sheetpack, xlrd
from core import Sub, Scratch, harness, require, raises, short
import anybook
import sheetgen as sg

RULE = ('A case is a generated workbook in any format and up to 6 sheetpack calls with generated sheet (by index '
        'or name), start cell, stop cell, header (True, False or a cell) and usecols (ints in any order, or '
        'letters and ranges in any case and spacing, inside or outside the range; the stop cell may lie below the last row). The channels, keys and names '
        'are compared with the sub-matrix of the description; usecols outside the range must raise ValueError, '
        'an unknown sheet must raise. Non-trivial: a call with start or stop cell and at least two channels.')

frac = st.integers(0, 1000)
calls = st.lists(st.fixed_dictionaries({
    'sheet': st.integers(0, 3), 'byname': st.booleans(),
    'start': st.one_of(st.none(), st.tuples(frac, frac).map(list)), 'startletter': st.sampled_from([0, 0, 0, 1]),
    'stop': st.one_of(st.none(), st.tuples(frac, frac).map(list)),
    'header': st.sampled_from([True, True, False, 'cell', 'cell']), 'hrow': frac, 'hcol': frac,
    'use': st.one_of(st.none(), st.tuples(st.sampled_from(['ints', 'tuple', 'str', 'str']),
                                          st.lists(frac, min_size=1, max_size=4)).map(list)),
    'over': st.sampled_from([0] * 6 + [1, 100, 30000]),
    'out': st.sampled_from([0, 0, 0, 0, 1, 2]), 'lower': st.booleans(),
    'sep': st.sampled_from([',', ', ', ' , ', ',,', ' ,\t'])}), min_size=1, max_size=6)
cases = st.fixed_dictionaries({'book': anybook.books(tall=False), 'calls': calls})


def usecols_string(cols, sep, lower):
    """'A:C, F' for sorted columns, consecutive ones as a range."""
    parts, i = [], 0
    while i < len(cols):
        j = i
        while j + 1 < len(cols) and cols[j + 1] == cols[j] + 1:
            j += 1
        parts.append(sg.colname(cols[i]) + (':' + sg.colname(cols[j]) if j > i or i % 3 == 2 else ''))
        i = j + 1
    if len(parts) > 1 and lower:
        parts = parts[1:] + parts[:1]
    s = sep.join(parts) + (',' if sep == ',,' else '')
    return s.lower() if lower else s


def check(case, cov):
    with harness():
        w = anybook.writer(case['book'])
        path = Scratch.write('b' + anybook.suffix(case['book']), w.blob)
    nontrivial = False
    for n, call in enumerate(case['calls']):
        with harness():
            i = call['sheet']
            if i >= len(w.sheets):
                bad = i if not call['byname'] else 'no such sheet!'
                kw = None
            else:
                sheet = w.sheets[i]
                if not sheet.nrows or not sheet.ncols:
                    continue
                kw = {'sheet': sheet.name if call['byname'] else i}
                if kw['sheet'] == 0 and call['sep'] == ',':
                    del kw['sheet']
                r1 = c1 = 0
                r2, c2 = sheet.nrows - 1, sheet.ncols - 1
                if call['start']:
                    r1, c1 = call['start'][0] * (r2 + 1) // 1001, call['start'][1] * (c2 + 1) // 1001
                    text = sg.addr(r1, c1)
                    if call['startletter']:
                        r1, text = 0, sg.colname(c1)
                    kw['startcell'] = text.lower() if call['lower'] else text
                if call['stop']:
                    r2 = r1 + call['stop'][0] * (r2 - r1 + 1) // 1001
                    c2 = c1 + call['stop'][1] * (c2 - c1 + 1) // 1001
                    text = sg.addr(r2, c2)
                    if call['over']:            # more rows than the sheet has: all of them
                        r2 = sheet.nrows - 1
                        text = sg.addr(r2 + call['over'], c2)
                    kw['stopcell'] = text.lower() if call['lower'] else text
                cols = list(range(c1, c2 + 1))
                wrong = False
                if call['use']:
                    how, picks = call['use']
                    chosen = [c1 + p * (c2 - c1 + 1) // 1001 for p in picks]
                    if call['out'] == 1:
                        chosen.append(c2 + 1 + picks[0] % 3)
                        wrong = True
                    elif call['out'] == 2 and c1:
                        chosen.append(c1 - 1 - picks[0] % c1)
                        wrong = True
                    cols = sorted(set(chosen))
                    kw['usecols'] = {'ints': chosen, 'tuple': tuple(chosen),
                                     'str': usecols_string(cols, call['sep'], call['lower'])}[how]
                    if how == 'tuple' and call['lower']:
                        kw['usecols'] = iter(chosen) if False else tuple(chosen)
                head = call['header']
                hrow, d1 = r1, r1
                if head is True:
                    d1 = r1 + 1
                    if call['sep'] != ', ':
                        kw['header'] = True
                elif head is False:
                    kw['header'] = False
                else:
                    hrow = call['hrow'] * sheet.nrows // 1001
                    kw['header'] = sg.addr(hrow, call['hcol'] * sheet.ncols // 1001)
        if kw is None:
            raises((xlrd.XLRDError, IndexError), lambda: sheetpack(path, sheet=bad), 'sheetpack(sheet=%r)' % (bad,))
            continue
        what = 'call %d, sheetpack(%s)' % (n, ', '.join('%s=%r' % t for t in sorted(kw.items())))
        if wrong:
            raises(ValueError, lambda: sheetpack(path, **kw), what)
            cov.tag('usecols outside')
            continue
        pack = sheetpack(path, **kw)
        require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what, sorted(pack.data), cols)
        for c in cols:
            bad = sg.channel_problem(pack.data[c], sheet.column(c, d1, r2 + 1), w.datemode)
            require(bad is None, '{}: column {}: {}', what, sg.colname(c), bad)
        names = {} if head is False else {c: sheet.at(hrow, c)[1] for c in cols}
        require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
        require(pack.fn == path, '{}: fn {}', what, pack.fn)
        nontrivial |= bool(call['start'] or call['stop']) and len(cols) > 1
        cov.tagif(call['use'], 'usecols')
        cov.tagif(head == 'cell', 'header cell')
    return nontrivial


SUBS = [Sub('ranges', cases, check, 5000, rule=RULE)]
