"""C27: however a workbook is opened and addressed, its cells are the same."""
import contextlib
import io
import mmap

from hypothesis import strategies as st

from channelpack import xlrd
from core import Sub, Scratch, harness, require, raises
import anybook
import namegen
import sheetgen as sg
import xlsmeta
import xlsxw
from c18 import compare_sheet

RULE = {
    'options': ('A case is a generated workbook in any format, opened in up to three ways (by name or from its bytes, '
                'with and without memory mapping, sheets at once or on demand, padded or ragged rows, with formatting '
                'information for xls, with diagnostics written to a log) followed by a history of up to 8 loads by index, name, iteration or subscript '
                'and unloads. Every loaded sheet is compared cell by cell with the description. Non-trivial: two sheets, '
                'or an option other than the defaults with at least 4 cells.'),
    'access': ('A case is a generated sheet and up to 12 accesses (cell, row and column slices, values and types with '
               'any start and end, negative ones included, subscripts, iteration) compared with slices of the matrix '
               'of the description. Non-trivial: a slice with a negative or outlying bound.'),
    'log': ('A case is a workbook with rows, columns, notes, links, fonts, formats (xls, BIFF 2 to 8), defined names (xls) or '
            'an xlsx book, opened with diagnostics of verbosity 1 to 8, at once or on demand: cells, notes, links, names '
            'and user are the same as without. Non-trivial: verbosity above 1 and some cells.')}

how = st.fixed_dictionaries({
    'source': st.sampled_from(['path', 'path', 'bytes', 'mmap', 'nommap']), 'on_demand': st.booleans(),
    'ragged': st.booleans(), 'fmt': st.booleans(), 'verb': st.sampled_from([0, 0, 0, 1, 2, 3]),
    'ops': st.lists(st.tuples(st.sampled_from(['index', 'name', 'sub', 'subname', 'unload', 'unloadname', 'iter', 'sheets',
                                               'loaded', 'index', 'release']), st.integers(0, 5)).map(list),
                    min_size=1, max_size=8)})
cases = st.fixed_dictionaries({'book': anybook.books(maxsheets=3, tall=False), 'how': st.lists(how, min_size=1, max_size=3)})


def compare(ws, sheet, ragged, fmt, ver, what):
    want = sheet
    if fmt:
        # formatted blank cells are there too
        class Padded(object):
            nrows = max([sheet.nrows] + [r + 1 for r, c in sheet.blanks]
                        + [m[0] + m[2] + 1 for m in sheet.merges if ver >= 80])
            ncols = max([sheet.ncols] + [c + 1 for r, c in sheet.blanks]
                        + [m[1] + m[3] + 1 for m in sheet.merges if ver >= 80])

            @staticmethod
            def at(r, c):
                tv = sheet.at(r, c)
                return (sg.BLANK, '') if tv[0] == sg.EMPTY and (r, c) in sheet.blanks else tv
        want = Padded
    if not ragged:
        compare_sheet(ws, want, what)
        return
    require((ws.nrows, ws.ncols) == (want.nrows, want.ncols), '{}: dimensions {}, expected {}', what,
            (ws.nrows, ws.ncols), (want.nrows, want.ncols))
    for r in range(want.nrows):
        n = ws.row_len(r)
        last = max([c + 1 for c in range(want.ncols) if want.at(r, c)[0] != sg.EMPTY] + [0])
        # one empty cell may stand for the rows below the last cell of a merged range
        require(n == last or (last == 0 and n == 1), '{}: row {} has {} cells, expected {}', what, r, n, last)
        got = list(zip(ws.row_types(r), ws.row_values(r)))
        for c in range(last):
            t, v = want.at(r, c)
            require(got[c][0] == t and sg.same(got[c][1], v), '{}: cell {} is {}, expected {}', what, sg.addr(r, c),
                    got[c], (t, v))
        raises(IndexError, lambda: ws.cell_value(r, want.ncols), what + ': cell right of row %d' % r)


def check(case, cov):
    with harness():
        w = anybook.writer(case['book'])
        path = Scratch.write('b' + anybook.suffix(case['book']), w.blob)
        xls = case['book']['fmt'] != 'xlsx'
        names = [s.name for s in w.sheets]
        lazy = xls and case['book']['fmt'] >= 50
    rich = len(names) > 1
    for h in case['how']:
        kw = {}
        keep = None
        src = h['source']
        if src == 'bytes':
            kw['file_contents'] = w.blob
        elif src == 'mmap':
            with open(path, 'rb') as fo:
                keep = kw['file_contents'] = mmap.mmap(fo.fileno(), 0, access=mmap.ACCESS_READ)
        else:
            kw['filename'] = path
            if src == 'nommap':
                kw['use_mmap'] = False
        fmt = h['fmt'] and xls
        if fmt:
            kw['formatting_info'] = True
        if h['on_demand']:
            kw['on_demand'] = True
        if h['ragged']:
            kw['ragged_rows'] = True
        if h['verb']:
            kw.update(verbosity=h['verb'], logfile=io.StringIO())
        what = '%s opened with %s' % (case['book']['fmt'], sorted(k for k in kw if k != 'filename'))
        cov.tag('with ' + src)
        with contextlib.redirect_stderr(io.StringIO()):     # some of the diagnostics go there
            book = xlrd.open_workbook(**kw)
        lazily = h['on_demand'] and lazy
        loaded = [not lazily] * len(names)
        released = src in ('path', 'nommap', 'bytes', 'mmap') and False
        require(book.nsheets == len(names) and list(book.sheet_names()) == names, '{}: sheets {}', what, book.sheet_names())
        require(book.datemode == w.datemode, '{}: date mode {}', what, book.datemode)
        for op, i in h['ops']:
            if not names:
                break
            i %= len(names)
            where = '%s, %s %d' % (what, op, i)
            if op in ('index', 'name', 'sub', 'subname'):
                if released and not loaded[i]:
                    continue
                ws = {'index': lambda: book.sheet_by_index(i), 'name': lambda: book.sheet_by_name(names[i]),
                      'sub': lambda: book[i], 'subname': lambda: book[names[i]]}[op]()
                loaded[i] = True
                require(ws.name == names[i], '{}: sheet {}', where, ws.name)
                compare(ws, w.sheets[i], h['ragged'], fmt, case['book']['fmt'], where)
            elif op in ('iter', 'sheets'):
                if released and not all(loaded):
                    continue
                for j, ws in enumerate(list(book) if op == 'iter' else book.sheets()):
                    loaded[j] = True
                    compare(ws, w.sheets[j], h['ragged'], fmt, case['book']['fmt'], '%s: sheet %d' % (where, j))
            elif op in ('unload', 'unloadname'):
                if lazily:
                    book.unload_sheet(i if op == 'unload' else names[i])
                    loaded[i] = False
                    cov.tag('unloaded')
            elif op == 'release':
                # what is loaded stays available
                book.release_resources()
                released = True
            for j in range(len(names)):
                require(bool(book.sheet_loaded(j)) == loaded[j] and bool(book.sheet_loaded(names[j])) == loaded[j],
                        '{}: sheet {} loaded: {}', where, j, book.sheet_loaded(j))
        raises(xlrd.XLRDError, lambda: book.sheet_by_name('no such sheet!'), what)
        book.release_resources()
        if keep is not None and not keep.closed:
            keep.close()
        rich |= bool(h['ragged'] or h['on_demand'] or fmt or src != 'path') and sum(len(s.cells) for s in w.sheets) > 3
    return rich


bound = st.one_of(st.none(), st.integers(-12, 16), st.integers(0, 6))
access = st.lists(st.tuples(
    st.sampled_from(['cell', 'neg', 'row', 'rowslice', 'rowtypes', 'rowvalues', 'colslice', 'coltypes', 'colvalues', 'col',
                     'sub', 'rows', 'outside']), st.integers(0, 60), st.integers(0, 60), bound, bound).map(list),
    min_size=1, max_size=12)
access_cases = st.fixed_dictionaries({'book': anybook.books(formats=['xlsx', 80, 50, 30], maxsheets=1, tall=False),
                                      'acc': access, 'fmt': st.booleans()})


def cellpairs(cells):
    return [(c.ctype, c.value) for c in cells]


def check_access(case, cov):
    with harness():
        w = anybook.writer(case['book'])
        path = Scratch.write('b' + anybook.suffix(case['book']), w.blob)
        sheet = w.sheets[0] if w.sheets else None
    if not sheet or not sheet.nrows or not sheet.ncols:
        return False
    with xlrd.open_workbook(path) as book:
        ws = book.sheet_by_index(0)
    matrix = [[sheet.at(r, c) for c in range(sheet.ncols)] for r in range(sheet.nrows)]
    rich = False
    for op, r, c, a, b in case['acc']:
        r %= sheet.nrows
        c %= sheet.ncols
        args = [] if a is None else [a] if b is None else [a, b]
        row = matrix[r]
        col = [line[c] for line in matrix]
        sl = slice(a if a is not None else 0, b if a is not None else None)
        what = '%s of row %d, column %d, bounds %r in a sheet of %d x %d' % (op, r, c, args, sheet.nrows, sheet.ncols)
        if op == 'cell':
            x = ws.cell(r, c)
            got, want = [(x.ctype, x.value), (ws.cell_type(r, c), ws.cell_value(r, c))], [row[c]] * 2
        elif op == 'neg':
            got, want = [(ws.cell_type(-1, -1), ws.cell_value(-1, -1))], [matrix[-1][-1]]
        elif op == 'sub':
            x = ws[r, c]
            got, want = [(x.ctype, x.value)] + cellpairs(ws[r]), [row[c]] + row
        elif op == 'row':
            got, want = cellpairs(ws.row(r)), row
            require(ws.row_len(r) == sheet.ncols, '{}: row_len {}', what, ws.row_len(r))
        elif op == 'rowslice':
            got, want = cellpairs(ws.row_slice(r, *args)), row[sl]
        elif op in ('rowtypes', 'rowvalues'):
            k = op == 'rowvalues'
            got = list(ws.row_values(r, *args) if k else ws.row_types(r, *args))
            want = [x[k] for x in row[sl]]
        elif op in ('colslice', 'col'):
            got, want = cellpairs(getattr(ws, 'col_slice' if op == 'colslice' else 'col')(c, *args)), col[sl]
        elif op in ('coltypes', 'colvalues'):
            k = op == 'colvalues'
            got = list(ws.col_values(c, *args) if k else ws.col_types(c, *args))
            want = [x[k] for x in col[sl]]
        elif op == 'rows':
            got = [cellpairs(x) for x in (ws.get_rows() if c % 2 else ws)]
            want = matrix
        else:
            raises(IndexError, lambda: ws.cell_value(sheet.nrows, c), what)
            raises(IndexError, lambda: ws.cell_value(r, sheet.ncols), what)
            raises(IndexError, lambda: ws.cell_type(sheet.nrows, c), what)
            continue
        require(got == want, '{}: {}, expected {}', what, got, want)
        rich |= 'slice' in op or len(args) > 0 and (min(args) < 0 or max(args) > 8)
        cov.tag(op)
    return rich


# -- books full of other things, told in a log
KINDS = {'meta': xlsmeta.Writer, 'names': namegen.Writer, 'xlsx': xlsxw.Writer}
log_cases = st.fixed_dictionaries({
    'book': st.one_of(xlsmeta.books([80, 80, 70, 50, 40, 30, 21, 20], tall=False).map(lambda b: ['meta', b]),
                      namegen.books([80, 70, 50]).map(lambda b: ['names', b]),
                      xlsxw.books.map(lambda b: ['xlsx', b])),
    'verb': st.integers(1, 8), 'on_demand': st.booleans(), 'fmt': st.booleans()})


def snapshot(book):
    sheets = []
    for ws in book.sheets():
        sheets.append((ws.name, ws.visibility, ws.nrows, ws.ncols, [(ws.row_types(r).tolist(), ws.row_values(r)) for r in range(ws.nrows)],
                       sorted((k, n.text, n.author) for k, n in ws.cell_note_map.items()), ws.merged_cells,
                       [(h.desc, h.url_or_path, h.textmark) for h in ws.hyperlink_list]))
    names = [(n.name, n.scope, n.result and (n.result.kind, repr(n.result.value), n.result.text)) for n in book.name_obj_list]
    return sheets, names, book.datemode, book.user_name, len(book.xf_list), len(book.font_list)


def check_log(case, cov):
    kind, spec = case['book']
    with harness():
        w = KINDS[kind](spec)
        path = Scratch.write('b.xlsx' if kind == 'xlsx' else 'b.xls', w.blob)
    kw = {'formatting_info': True} if case['fmt'] and kind != 'xlsx' else {}
    what = '%s book, %s, verbosity %d, on demand %s' % (kind, kw, case['verb'], case['on_demand'])
    want = snapshot(xlrd.open_workbook(path, logfile=io.StringIO(), **kw))
    log = io.StringIO()
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        got = snapshot(xlrd.open_workbook(path, logfile=log, verbosity=case['verb'], on_demand=case['on_demand'], **kw))
    for a, b in zip(got[0], want[0]):
        for x, y in zip(a, b):
            require(repr(x) == repr(y), '{}: {}, without log {}', what, x, y)
    require(repr(got) == repr(want), '{}: {}, without log {}', what, got[1:], want[1:])
    if not kw:
        with harness():
            names = [s.name for s in w.sheets]
        require([s[0] for s in got[0]] == names, '{}: sheets {}', what, [s[0] for s in got[0]])
    cov.tag('%s at %d' % (kind, case['verb']))
    return case['verb'] > 1 and any(s[2] for s in want[0])


SUBS = [Sub('options', cases, check, 3000, rule=RULE['options']),
        Sub('access', access_cases, check_access, 2500, rule=RULE['access']),
        Sub('log', log_cases, check_log, 700, rule=RULE['log'])]
