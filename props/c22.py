"""C22: the kinds of cells in a column of a sheet decide the type of the channel."""
from hypothesis import strategies as st

from channelpack import sheetpack
from core import Sub, Scratch, harness, require
import anybook
import sheetgen as sg
import xlsw
import xlsxw

RULE = ('A case is a sheet of up to 12 columns of up to 9 rows, each column mixing cells of a chosen set of '
        'kinds (number, text, date, boolean, error, blank, absent), stored as xlsx or xls, read with and '
        'without header: a channel of numbers and missing cells is float with nan, of text and missing cells '
        'is text with empty strings, any other holds datetimes, bools, floats, text and None. Element types '
        'and values and the dtype are compared. Non-trivial: a column with cells of two kinds or more.')

pool = {'n': sg.cell_n, 't': sg.cell_t, 'd': sg.cell_d, 'b': sg.cell_b, 'e': sg.cell_e, 'z': sg.cell_z,
        '-': st.none()}
kindsets = st.one_of(
    st.sampled_from(['n', 't', 'd', 'b', 'e', '-', 'n-', 'ne', 'nz', 't-', 'te', 'tz', 'd-', 'de', 'b-', 'be',
                     'nt', 'nd', 'nb', 'td', 'tb', 'db', 'ntdb', 'e-', 'z-', 'nez-', 'tez-', 'dez-', 'bez-',
                     'nt-', 'nte', 'nb-', 'nd-', 'tb-', 'td-']),
    st.sets(st.sampled_from('ntdbez-'), min_size=1).map(lambda s: ''.join(sorted(s))))


@st.composite
def column(draw):
    kinds = draw(kindsets)
    main = draw(st.sampled_from(kinds))
    # mostly one kind with the odd cell of another
    elem = st.one_of(*([pool[k] for k in kinds] + ([pool[main]] * 2 if draw(st.booleans()) else [])))
    return {'gap': 0, 'head': draw(st.one_of(sg.cell_t, sg.any_cell)),
            'v': draw(st.lists(elem, min_size=1, max_size=9))}


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(['xlsx', 'xlsx', 80, 50, 30, 20]))
    sheet = {'name': 'S', 'n': draw(st.integers(1, 9)), 'r0': 0, 'c0': 0, 'extra': [], 'merge': [],
             'chart': False, 'state': 0, 'cols': draw(st.lists(column(), min_size=1, max_size=12))}
    case = {'fmt': fmt, 'sheets': [sheet], 'styles': draw(sg.styles), 'date1904': draw(st.sampled_from([0, 0, 1]))}
    if fmt == 'xlsx':
        case['x'] = draw(xlsxw.options)
    else:
        case['x'] = draw(st.fixed_dictionaries(dict(xlsw.options, ver=st.just(fmt), raw=st.just(0), big=st.none(),
                                                    frag=st.just(0))))
    case['header'] = draw(st.sampled_from([True, False, 'A1']))
    return case


def check(case, cov):
    with harness():
        w = anybook.writer(case)
        path = Scratch.write('b' + anybook.suffix(case), w.blob)
        sheet = w.sheets[0]
        header = case['header']
        d1 = 1 if header is True else 0
    if not sheet.ncols or sheet.nrows <= d1:
        return False
    what = 'sheetpack(header=%r)' % (header,)
    pack = sheetpack(path, header=header)
    require(sorted(pack.data) == list(range(sheet.ncols)), '{}: channels {}', what, sorted(pack.data))
    mixed = False
    for c in range(sheet.ncols):
        tv = sheet.column(c, d1, sheet.nrows)
        bad = sg.channel_problem(pack.data[c], tv, w.datemode)
        require(bad is None, '{}: column {} of cells {}: {}', what, sg.colname(c), tv, bad)
        kinds = set(t for t, v in tv)
        mixed = mixed or len(kinds) > 1
        cov.tag('kinds ' + ''.join('-tndbez'[k] for k in sorted(kinds)))
    return mixed


SUBS = [Sub('columns', cases(), check, 5000, rule=RULE)]
