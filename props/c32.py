"""C32: defined names are read as stored, and never hinder the reading of a workbook."""
from hypothesis import strategies as st

from channelpack import xlrd
from channelpack.xlrd.biffh import XLRDError
from core import Sub, Scratch, Violation, harness, require, short
import namegen
import sheetgen as sg
import xlsxw
from namegen import REF, REL, STR
from c18 import compare_book
from c30 import attrs, equal

RULE = ('A case is an xls workbook (BIFF 5, 7, 8) with up to eight defined names: user and built-in names, global, of a sheet, '
        'of a chart or macro sheet or of none, with formulas of constants, operators, functions, references absolute and '
        'relative, to one or several sheets, deleted or external, and other names. Names, scopes, flags, formula bytes, '
        'results, formula texts (parsed again) and the look-up maps are compared with the description, and all cells of '
        'the book. Non-trivial: some name has an operator, a function or a reference.')


def same(got, want):
    return type(got) is type(want) and (got == want and str(got) == str(want))


def check_value(res, want, what):
    kind, value = want
    require(res is not None, '{}: no result', what)
    require(res.kind == kind, '{}: kind {}, expected {}', what, res.kind, kind)
    if kind not in (REF, REL):
        v = res.value
        if isinstance(value, int):
            require(v == value, '{}: value {}, expected {}', what, v, value)
        else:
            require(same(v, value), '{}: value {}, expected {}', what, v, value)
        return
    place, box, flags, cls = value
    if cls != 1 and res.value is None:
        return
    require(isinstance(res.value, list) and len(res.value) == 1, '{}: value {}', what, res.value)
    r = res.value[0]
    require(r.coords[2:] == box, '{}: cells {}, expected {}', what, r.coords, box)
    if place is None:
        require(r.coords[0] < 0, '{}: sheet {} of a reference to none', what, r.coords)
    else:
        require(r.coords[:2] == place, '{}: sheets {}, expected {}', what, r.coords, place)
    require(r.relflags[2:] == flags, '{}: relative parts {}, expected {}', what, r.relflags, flags)
    require((r.shtxlo, r.shtxhi, r.rowxlo, r.rowxhi, r.colxlo, r.colxhi) == r.coords, '{}: attributes of {}', what, r)


def refused(f, what, *kinds):
    try:
        f()
    except kinds or XLRDError:
        return
    raise Violation('%s: no XLRDError' % what)


def check_lookup(book, n, want, what):
    one = want and want[0] == REF and want[1][0] and want[1][0][1] - want[1][0][0] == 1 and want[1][3] == 1
    if not one:
        if want and not (want[0] == REF and want[1][3] != 1):
            refused(n.cell, what + ': cell()')
            refused(n.area2d, what + ': area2d()')
        else:                   # no other exception
            for f in n.cell, n.area2d:
                try:
                    f()
                except (XLRDError, IndexError):
                    pass
        return
    (s, _), (r1, r2, c1, c2) = want[1][:2]
    ws = book.sheet_by_index(s)
    sh, a, b, c, d = n.area2d(clipped=False)
    require(sh is ws and (a, b, c, d) == (r1, r2, c1, c2), '{}: area2d(clipped=False) {}', what, (sh.name, a, b, c, d))
    sh, a, b, c, d = n.area2d()
    r = [x for x in range(r1, min(r2, ws.nrows))]
    k = [x for x in range(c1, min(c2, ws.ncols))]
    require(sh is ws and list(range(a, b)) == r and list(range(c, d)) == k and 0 <= a <= b <= ws.nrows
            and 0 <= c <= d <= ws.ncols, '{}: area2d() {}, expected rows {}, columns {}', what, (sh.name, a, b, c, d), r, k)
    if r2 - r1 != 1 or c2 - c1 != 1:
        refused(n.cell, what + ': cell()')
    elif r1 >= ws.nrows or c1 >= ws.ncols:
        refused(n.cell, what + ': cell()', XLRDError, IndexError)
    else:
        got, cell = n.cell(), ws.cell(r1, c1)
        require(got.ctype == cell.ctype and same(got.value, cell.value), '{}: cell() {}, expected {}', what, got, cell)


def check(case, cov):
    with harness():
        w = namegen.Writer(case)
        path = Scratch.write('b.xls', w.blob)
    book = xlrd.open_workbook(path, logfile=open('/dev/null', 'w'))
    equal(len(book.name_obj_list), len(w.list), 'number of names')
    some = False
    for i, (n, d) in enumerate(zip(book.name_obj_list, w.list)):
        what = 'BIFF %d, name %d %r' % (w.ver, i, d['tree'])
        f = d['flags']
        attrs(n, {'name': d['text'], 'scope': d['at'], 'name_index': i, 'hidden': f & 1, 'func': f >> 1 & 1, 'vbasic': f >> 2 & 1,
                  'macro': f >> 3 & 1, 'complex': f >> 4 & 1, 'builtin': f >> 5 & 1, 'funcgroup': f >> 6 & 63, 'binary': 0}, what)
        require(n.raw_formula[:len(d['toks'])] == d['toks'], '{}: raw formula', what)
        require(n.book is book, '{}: book', what)
        if f & 8:
            continue
        want = w.value(d['tree'])
        some = some or d['tree'][0] in ('bin', 'un', '%', 'fn', 'ref', 'area', 'sum', 'refop')
        if want is not None:
            check_value(n.result, want, what)
            cov.tag('value of kind %d' % want[0])
        check_lookup(book, n, want, what)
        if w.readable(d['tree']):
            text = n.result.text
            with harness():
                leaves = list(w.leaves(d['tree']))
            try:
                tree = namegen.Parser(text, leaves).parse()
            except namegen.Bad as e:
                raise Violation('%s: the text %r cannot be read: %s' % (what, text, e))
            require(tree == w.plain(d['tree']), '{}: the text {} means {}', what, text, tree)
            cov.tag('text')
    if w.ver >= 80:
        equal(book.addin_func_names, namegen.ADDINS, 'functions of add-ins')
    check_maps(book)
    compare_book(book, w.sheets, w.datemode, 'names, %s' % short(case['x']))
    cov.tag('BIFF%d' % w.ver)
    return some


def check_maps(book):
    maps = {}
    for n in book.name_obj_list:
        key = n.name.lower()
        require(book.name_and_scope_map.get((key, n.scope)) is not None, 'name {} not in name_and_scope_map', n.name)
        maps.setdefault(key, []).append((n.scope, n.name_index))
    last = {(n.name.lower(), n.scope): n for n in book.name_obj_list}
    equal({k: v.name_index for k, v in book.name_and_scope_map.items()}, {k: v.name_index for k, v in last.items()},
          'name_and_scope_map')
    equal({k: [(n.scope, n.name_index) for n in v] for k, v in book.name_map.items()}, {k: sorted(v) for k, v in maps.items()},
          'name_map')


# -- xlsx
truth = st.sampled_from(['1', 'true', '0', 'false'])
formula = st.one_of(st.sampled_from(["Data!$A$1", "'My sheet'!$A$1:$B$2", '#REF!', '"a"&"b"', '{1,2;3,4}', 'SUM(A1,<0)', '5']),
                    st.text(sg.XMLOK, min_size=1, max_size=12).map(lambda s: '1' + s + '2'))
defined = st.fixed_dictionaries({
    'name': st.one_of(st.tuples(st.sampled_from(['rate', 'Rate', 'area_', 'Größe', 'Ω', '数据', '😀n', 'X' * 100]),
                                st.integers(1, 4)).map(lambda t: '%s%d' % t),
                      st.sampled_from(['_xlnm.Print_Area', '_xlnm.Print_Titles', '_xlnm._FilterDatabase'])),
    'scope': st.one_of(st.none(), st.integers(0, 3)), 'formula': formula,
    'flags': st.fixed_dictionaries({}, optional={'hidden': truth, 'function': truth, 'vbProcedure': truth, 'xlm': truth,
                                                 'functionGroupId': st.integers(0, 14).map(str)})})
xlsx_books = st.tuples(xlsxw.books, st.lists(namegen.sheet, min_size=1, max_size=4), st.lists(st.sampled_from([0, 0, 1]),
                       min_size=4, max_size=4), st.permutations(namegen.SHEETS), st.lists(defined, min_size=1, max_size=6)).map(
    lambda t: dict(t[0], sheets=[dict(s, chart=bool(c), name=n) for s, c, n in zip(t[1], t[2], t[3])],
                   defined=[dict(d, scope=None if d['scope'] is None else d['scope'] % len(t[1])) for d in t[4]]))


def check_xlsx(case, cov):
    with harness():
        w = xlsxw.Writer(case)
        path = Scratch.write('b.xlsx', w.blob)
        place = []
        for n, s in w.all:
            place.append(-2 if s['chart'] else sum(p >= 0 for p in place))
    book = xlrd.open_workbook(path)
    equal(len(book.name_obj_list), len(case['defined']), 'number of names')
    for i, (n, d) in enumerate(zip(book.name_obj_list, case['defined'])):
        on = {k: int(v in ('1', 'true')) for k, v in d['flags'].items()}
        attrs(n, {'name': d['name'], 'scope': -1 if d['scope'] is None else place[d['scope']], 'name_index': i,
                  'hidden': on.get('hidden', 0), 'func': on.get('function', 0), 'vbasic': on.get('vbProcedure', 0),
                  'macro': on.get('xlm', 0), 'builtin': int(d['name'].startswith('_xlnm.')), 'formula_text': d['formula']},
              'xlsx, sheets %r, name %d' % (place, i))
        if 'functionGroupId' in d['flags']:
            equal(n.funcgroup, int(d['flags']['functionGroupId']), 'funcgroup of name %d' % i)
    check_maps(book)
    compare_book(book, w.sheets, w.datemode, 'names, %s' % short(case['x']))
    local = any(d['scope'] is not None for d in case['defined'])
    cov.tagif(local, 'local names')
    cov.tagif(local and any(s['chart'] for n, s in w.all), 'local names and charts')
    return local


SUBS = [Sub('xls', namegen.books([80, 80, 80, 70, 50]), check, 6000, rule=RULE),
        Sub('xlsx', xlsx_books, check_xlsx, 1000, rule='The same with the defined names of xlsx workbooks: names, scopes, '
            'flags, formula texts. Non-trivial: a name is local to a sheet.')]
