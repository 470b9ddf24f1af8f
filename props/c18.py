"""C18: every cell of an xlsx workbook is read as it was stored."""
from hypothesis import strategies as st

from channelpack import sheetpack, xlrd
from core import Sub, Scratch, harness, require, short
import sheetgen as sg
import xlsxw

RULE = ('A case is a generated workbook (1 to 3 sheets among chart sheets, hidden sheets; numbers, dates in '
        'both date systems through built-in and custom formats, shared, inline, rich, phonetic and formula '
        'strings with escapes, booleans, errors, blanks, gaps, merged ranges; up to 1000 rows) written as '
        'xlsx in one of many lawful variants (prefixes, part name case, omitted references, dimensions, '
        'order of parts, encodings). All cells of all sheets are compared with the description, and the '
        'channels of sheetpack for each sheet, by index and by name. Non-trivial: at least two columns '
        'with data of different kinds.')


def compare_book(book, sheets, datemode, what, pad=True):
    require(book.nsheets == len(sheets), '{}: {} sheets, expected {}', what, book.nsheets, len(sheets))
    require(list(book.sheet_names()) == [s.name for s in sheets], '{}: sheet names {}', what,
            book.sheet_names())
    require(book.datemode == datemode, '{}: date mode {}', what, book.datemode)
    for i, want in enumerate(sheets):
        compare_sheet(book.sheet_by_index(i), want, '%s, sheet %r' % (what, want.name))


def compare_sheet(ws, want, what):
    require((ws.nrows, ws.ncols) == (want.nrows, want.ncols), '{}: dimensions {}, expected {}', what,
            (ws.nrows, ws.ncols), (want.nrows, want.ncols))
    for r in range(want.nrows):
        types, values = ws.row_types(r), ws.row_values(r)
        require(len(types) == len(values) == want.ncols, '{}: row {} has {} cells, expected {}', what, r,
                len(types), want.ncols)
        for c in range(want.ncols):
            t, v = want.at(r, c)
            require(types[c] == t and sg.same(values[c], v), '{}: cell {} is {}, expected {}', what,
                    sg.addr(r, c), (types[c], values[c]), (t, v))


def compare_pack(pack, sheet, datemode, what, header=True, path=None):
    require(sorted(pack.data) == list(range(sheet.ncols)), '{}: keys {}', what, sorted(pack.data))
    for c in range(sheet.ncols):
        bad = sg.channel_problem(pack.data[c], sheet.column(c, 1 if header else 0, sheet.nrows), datemode)
        require(bad is None, '{}: column {}: {}', what, sg.colname(c), bad)
    want = {c: sheet.at(0, c)[1] for c in range(sheet.ncols)} if header else {}
    require(dict(pack.names) == want, '{}: names {}, expected {}', what, dict(pack.names), want)
    require(pack.fn == path, '{}: fn {}', what, pack.fn)


def read_packs(path, w, cov, header):
    for i, sheet in enumerate(w.sheets):
        if not sheet.ncols:
            continue
        for ref in (i, sheet.name):
            what = 'sheetpack(sheet=%r, header=%r)' % (ref, header)
            compare_pack(sheetpack(path, sheet=ref, header=header), sheet, w.datemode, what, header, path)


def kinds(w):
    out = set()
    for s in w.sheets:
        out |= set((c, t) for (r, c), (t, v) in s.cells.items())
    return len(set(c for c, t in out)) > 1 and len(set(t for c, t in out)) > 1


def check(case, cov):
    with harness():
        w = xlsxw.Writer(case)
        path = Scratch.write('b.xlsx', w.blob)
    book = xlrd.open_workbook(path)
    compare_book(book, w.sheets, w.datemode, 'xlsx %s' % short(case['x']))
    read_packs(path, w, cov, case['x']['num'] % 2 == 0)
    cov.tagif(len(w.sheets) > 1, 'several worksheets')
    cov.tagif(w.datemode, '1904 dates')
    cov.tagif(any(s.nrows > 99 for s in w.sheets), 'tall')
    cov.tagif(case['x']['case'], 'part names in other case')
    cov.tagif(case['x']['comments'], 'comments')
    return kinds(w)


FAR = ('Few cells far away (rows up to 70,001, columns up to XFD), rows of up to 16,384 cells, columns of up to 70,001 '
       'cells. Non-trivial: beyond row 127 or column 127.')


def check_far(case, cov):
    check(case, cov)
    with harness():
        far = sg.farthest(case['sheets'][0])
        cov.tagif(far[0] > 32767, 'beyond row 32767')
        cov.tagif(far[1] > 255, 'beyond column IV')
    return max(far) > 127


SUBS = [Sub('books', xlsxw.books, check, 2400, rule=RULE),
        Sub('far', xlsxw.farbooks, check_far, 120, rule=FAR)]
