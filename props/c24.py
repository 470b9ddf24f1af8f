"""C24: numbers are dates exactly when their cell format is a date or time format."""
from hypothesis import strategies as st

from channelpack import sheetpack, xlrd
from core import Sub, Scratch, harness, require
import anybook
import sheetgen as sg
import xlsw
import xlsxw

RULE = ('A case is up to 10 number formats and date formats put together from their grammar (sections, digits, '
        'percent, exponents, fractions, quoted and escaped text with misleading letters and digits, fillers, '
        'colours, conditions, currency and locale brackets; day, month, year, hour, minute and second codes in '
        'any case, AM/PM, elapsed hours, fractions of seconds), used by cells of a sheet stored as xlsx or xls. '
        'The type of each cell is compared with the grammar the format was made from, and the channel of dates '
        'has datetimes, the channel of numbers floats. Non-trivial: formats of both kinds with quoted or escaped '
        'text or brackets.')

lit = st.one_of(st.sampled_from(['"day"', '" m/s"', '"ymdhs"', '"0"', '"#?0"', '" deg "', '""', '"[h]"', '"a;b"',
                                 '\\d', '\\m', '\\y', '\\0', '\\#', '\\ ', '\\-', '\\h', '\\s', '\\"', '_)', '_d', '_0',
                                 '_-', '* ', '*y', '*0', ' ', '-', '(', ')', '/', ':', '$', '+']),
                st.text('ymdhs0#?[]; xE\\_*', max_size=6).map(lambda s: '"%s"' % s),
                st.sampled_from('ymdhs0#?YMDHS"\\_*[];x ').map(lambda c: '\\' + c),
                st.sampled_from('ymdhs0#?YMDHS"\\_*[];x ').map(lambda c: '_' + c))
colour = st.sampled_from(['[Red]', '[Blue]', '[Cyan]', '[Magenta]', '[Black]', '[Yellow]', '[Color 12]', '[RED]'])
cond = st.sampled_from(['[>100]', '[<=0]', '[=1]', '[>=10.5]', '[<>0]'])
money = st.sampled_from(['[$kr-41D]', '[$-409]', '[$$-409]', '[$EUR]', '[$SEK-41D]', '[$-F800]', '[$-1010000]', '[$-sv-SE]'])
digits = st.sampled_from(['0', '#', '0.0', '0.00', '#,##0', '#,##0.00', '0%', '0.00%', '# ?/?', '# ??/??', '0.00E+00',
                          '##0.0E+0', '0,', '?0.??', '000', '#.#', '.00', '0E-0'])
ymd = st.sampled_from(['yyyy', 'yy', 'mmm', 'mmmm', 'mm', 'm', 'dddd', 'ddd', 'dd', 'd', 'YYYY', 'MM', 'DD', 'mmmmm', 'Yy'])
hms = st.sampled_from(['h', 'hh', 'mm', 'ss', 's', 'HH', 'SS', 'h:mm', 'hh:mm:ss', '[h]:mm', '[hh]:mm:ss', '[mm]:ss',
                       'h:mm AM/PM', 'h AM/PM', 'h:mm:ss am/pm', 'h:mm A/P', 'hh:mm:ss.000', 'hh:mm:ss.0', 'mm:ss.0', 'mm:ss.00'])


@st.composite
def numsection(draw):
    parts = draw(st.lists(lit, max_size=3)) + [draw(digits)] + draw(st.lists(lit, max_size=3))
    lead = draw(st.lists(st.one_of(colour, cond, money), max_size=2))
    return ''.join(lead + parts)


@st.composite
def numfmt(draw):
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(st.sampled_from(['General', 'GENERAL', 'general', '@', '[Red]General', 'General" m"', '"d" General',
                                     'General\\d', '"Yes";"Yes";"No"', '"On"', '"True";"True";"False"', '""', ';;;', '', '',
                                     '0;[Red]-0;"y";@', '[Red]@']))
    secs = [draw(numsection()) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 4)) == 0:
        secs.append(draw(st.sampled_from(['@', '"none"', '', '_-@_-'])))
    return ';'.join(secs)


@st.composite
def datefmt(draw):
    out = []
    lead = draw(st.lists(st.one_of(colour, money), max_size=1))
    for _ in range(draw(st.integers(1, 4))):
        out.append(draw(st.one_of(ymd, ymd, hms)))
        out.append(draw(st.one_of(st.just(''), st.sampled_from(['-', '/', ' ', ', ', '.', ':']), lit)))
    tail = draw(st.sampled_from(['', '', '', ';@', ';"none"', ';', '\\ ']))
    return ''.join(lead + out) + tail


formats = st.lists(st.one_of(numfmt().filter(lambda s: len(s) < 200).map(lambda s: ['numc', s]),
                             datefmt().map(lambda s: ['datec', s])), min_size=1, max_size=10)


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(['xlsx', 'xlsx', 80, 80, 70, 50, 45, 40, 30, 21]))
    fmts = draw(formats)
    ids = draw(st.lists(st.sampled_from(sg.NUM_IDS + sg.DATE_IDS + sg.NUM_MORE + sg.DATE_MORE).map(lambda i: ['id', i]),
                        max_size=4))
    fmts = ids + fmts
    styles = [['id', 0], ['id', 14]] + fmts
    nd = sum(map(sg.style_is_date, fmts))
    nn = len(fmts) - nd
    cells_d = [['d', draw(sg.serials), 1 + i] for i in range(nd)]
    cells_n = [['n', draw(sg.nums), 1 + i] for i in range(nn)]
    cols = []
    for cells in (cells_d, cells_n, cells_d + cells_n):
        if cells:
            cols.append({'gap': 0, 'head': ['t', 'h', 0], 'v': cells})
    sheet = {'name': 'S', 'n': max(len(c['v']) for c in cols), 'r0': 0, 'c0': 0, 'extra': [], 'merge': [],
             'chart': False, 'state': 0, 'cols': cols}
    case = {'fmt': fmt, 'sheets': [sheet], 'styles': styles, 'date1904': draw(st.sampled_from([0, 0, 1]))}
    if fmt == 'xlsx':
        case['x'] = draw(xlsxw.options)
    else:
        case['x'] = draw(st.fixed_dictionaries(dict(xlsw.options, ver=st.just(fmt), raw=st.just(0), big=st.none(),
                                                    frag=st.just(0))))
    return case


def check(case, cov):
    with harness():
        w = anybook.writer(case)
        path = Scratch.write('b' + anybook.suffix(case), w.blob)
        sheet = w.sheets[0]
        styles = case['styles']
    with xlrd.open_workbook(path) as book:
        ws = book.sheet_by_index(0)
        require((ws.nrows, ws.ncols) == (sheet.nrows, sheet.ncols), 'dimensions {}', (ws.nrows, ws.ncols))
        for c, col in enumerate(case['sheets'][0]['cols']):
            for i in range(case['sheets'][0]['n']):
                cell = col['v'][i % len(col['v'])]
                code = styles[sg.style_of(styles, cell[0], cell[2])][1]
                want = sheet.at(i + 1, c)
                got = ws.cell_type(i + 1, c), ws.cell_value(i + 1, c)
                require(got == want, '{} format {!r}: cell (type, value) {}, expected {}', case['fmt'], str(code), got,
                        want)
    pack = sheetpack(path)
    for c in range(sheet.ncols):
        bad = sg.channel_problem(pack.data[c], sheet.column(c, 1, sheet.nrows), w.datemode)
        require(bad is None, 'column {}: {}', sg.colname(c), bad)
    codes = [s for s in styles[2:] if s[0] != 'id'
             and ('"' in s[1] or '\\' in s[1] or '[' in s[1])]
    return len(set(s[0] for s in codes)) == 2


SUBS = [Sub('formats', cases(), check, 5000, rule=RULE)]
