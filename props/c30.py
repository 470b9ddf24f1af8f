"""C30: what is stored about a sheet beside its cells is read as stored."""
from hypothesis import strategies as st

from channelpack import xlrd
from core import Sub, Scratch, harness, require
import sheetgen as sg
import xlsmeta
import xlsxw

RULE = {
    'xls': 'A case is an xls workbook (BIFF 2.1 to 8) with generated rows and columns (height, width, hidden, outline, '
           'default formats), default sizes, window options, zoom, panes, page breaks, merged and label ranges, notes '
           '(cut into pieces, with formatting runs), hyperlinks of four kinds with tips, rich text runs and sheet states. '
           'All of it, the width of columns and the format index of every cell, empty ones included, are compared with the '
           'description. Non-trivial: at least three kinds of it are present.',
    'xlsx': 'A case is an xlsx workbook with merged ranges, hidden sheets and notes by several authors, plain or in runs, '
            'in all variants of part names and folders. Non-trivial: at least one note or merged range.'}
VERSIONS = [80, 80, 80, 70, 50, 40, 30, 21, 20]
WINDOW = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values',
          'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
          'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview']


def attrs(obj, want, what):
    for name, value in want.items():
        got = obj
        for part in name.split('.'):
            got = getattr(got, part)
        require(type(got) is type(value) and got == value, '{}: {} is {}, expected {}', what, name, got, value)


def equal(got, want, what):
    require(got == want, '{}: {}, expected {}', what, got, want)


def width(ver, w, c):
    cols = w['cols']
    own = cols.get(c, {}).get('width')
    if ver >= 80:
        if own is not None:
            return own
        if w['std'] is not None:
            return w['std']
    elif ver >= 40:
        if w['gcw'][c]:
            if w['std'] is not None:
                return w['std']
        elif own is not None:
            return own
    elif own is not None:
        return own
    return 2048 if w['defcol'] is None else w['defcol'] * 256


def check_sheet(ws, w, ver, state, book, what):
    equal(ws.visibility, state, what + ': visibility')
    equal(sorted(ws.rowinfo_map), sorted(w['rows']), what + ': rows with a description')
    for r, d in w['rows'].items():
        attrs(ws.rowinfo_map[r], d, '%s: row %d' % (what, r))
    equal(sorted(ws.colinfo_map), sorted(w['cols']), what + ': columns with a description')
    for c, d in w['cols'].items():
        attrs(ws.colinfo_map[c], d, '%s: column %d' % (what, c))
    for c in sorted(set(list(w['cols'])[:40]) | {0, 1, 7, 31, 32, 255}) if ver >= 30 else ():
        equal(ws.computed_column_width(c), width(ver, w, c), '%s: width of column %d' % (what, c))
    height, bits = w['defrow']
    attrs(ws, {'default_row_height': height, 'default_row_height_mismatch': bits & 1, 'default_row_hidden': bits >> 1 & 1,
               'default_additional_space_above': bits >> 2 & 1, 'default_additional_space_below': bits >> 3 & 1,
               'defcolwidth': w['defcol'], 'standardwidth': w['std']}, what)
    window(ws, w, book, what)
    equal(ws.has_pane_record, int(w['pane'] is not None), what + ': has_pane_record')
    if w['pane']:
        v, h, r, c, active = w['pane']
        attrs(ws, {'vert_split_pos': v, 'horz_split_pos': h, 'horz_split_first_visible': r,
                   'vert_split_first_visible': c, 'split_active_pane': active}, what)
    equal(list(map(tuple, ws.horizontal_page_breaks)), w['hbreaks'], what + ': horizontal page breaks')
    equal(list(map(tuple, ws.vertical_page_breaks)), w['vbreaks'], what + ': vertical page breaks')
    equal(list(map(tuple, ws.merged_cells)), w['merged'], what + ': merged cells')
    equal(list(map(tuple, ws.row_label_ranges)), w['rowlabels'], what + ': row label ranges')
    equal(list(map(tuple, ws.col_label_ranges)), w['collabels'], what + ': column label ranges')
    equal(sorted(ws.cell_note_map), sorted(w['notes']), what + ': cells with a note')
    for pos, d in w['notes'].items():
        note = ws.cell_note_map[pos]
        attrs(note, {k: v for k, v in d.items() if k != 'rich_text_runlist'}, '%s: note at %r' % (what, pos))
        equal(list(map(tuple, note.rich_text_runlist)), d['rich_text_runlist'], '%s: runs of the note at %r' % (what, pos))
    equal(len(ws.hyperlink_list), len(w['links']), what + ': number of hyperlinks')
    cells = {}
    for h, d in zip(ws.hyperlink_list, w['links']):
        attrs(h, d, '%s: hyperlink' % what)
        for r in range(d['frowx'], d['lrowx'] + 1):
            for c in range(d['fcolx'], d['lcolx'] + 1):
                cells[r, c] = h
    equal(sorted(ws.hyperlink_map), sorted(cells), what + ': cells with a hyperlink')
    for pos in cells:
        require(ws.hyperlink_map[pos] is cells[pos], '{}: another hyperlink at {}', what, pos)
    equal(sorted(ws.rich_text_runlist_map), sorted(w['runs']), what + ': cells with formatting runs')
    for pos, runs in w['runs'].items():
        equal(list(map(tuple, ws.rich_text_runlist_map[pos])), runs, '%s: formatting runs at %r' % (what, pos))


def window(ws, w, book, what):
    win = w['win'] or (0b000010110110, 0, 0, 0x40, 0, 0, None)
    flags, r, c, grid, m1, m2, rgb = win
    for i, name in enumerate(WINDOW):
        equal(getattr(ws, name), flags >> i & 1, '%s: %s' % (what, name))
    attrs(ws, {'first_visible_rowx': r, 'first_visible_colx': c, 'cached_page_break_preview_mag_factor': m1,
               'cached_normal_view_mag_factor': m2, 'gridline_colour_rgb': rgb, 'scl_mag_factor': w['scl']}, what)
    if rgb is None:
        equal(ws.gridline_colour_index, grid, what + ': gridline_colour_index')
    else:       # the colour of the palette nearest to it
        def far(x):
            return sum((a - b) ** 2 for a, b in zip(x, rgb))
        best = min(far(x) for x in book.colour_map.values() if x is not None)
        equal(far(book.colour_map[ws.gridline_colour_index]), best, what + ': distance of gridline_colour_index')
    zoom = 100 if w['scl'] is None else w['scl']
    if flags >> 11 & 1:
        equal((ws.cooked_page_break_preview_mag_factor, ws.cooked_normal_view_mag_factor),
              (zoom, m2 if 10 <= m2 <= 400 else zoom), what + ': zoom of page break preview and normal view')
    else:
        equal((ws.cooked_page_break_preview_mag_factor, ws.cooked_normal_view_mag_factor),
              (60 if not m1 else m1 if 10 <= m1 <= 400 else zoom, zoom),
              what + ': zoom of page break preview and normal view')


def some(n, stored, described, most):
    """The rows or columns to look at: all, or those that hold something, the edges and some more."""
    if n <= most:
        return range(n)
    found = {0, 1, n // 2, n - 2, n - 1}
    for x in stored, sorted(described):
        found.update([i for i in x if i < n][:most])
    return sorted(found)


def check_formats(ws, w, ver, book, what):
    """The format index of each cell of the sheet."""
    if ver == 20:
        for (r, c), (key, locked, hidden, font, align) in w['attr'].items():
            if r < ws.nrows and c < ws.ncols:
                xf = book.xf_list[ws.cell_xf_index(r, c)]
                d = {'format_key': key, 'font_index': font, 'protection.cell_locked': locked,
                     'protection.formula_hidden': hidden, 'alignment.hor_align': align & 7}
                xlsmeta.Writer.simple(d, align)
                attrs(xf, d, '%s: format of cell %s' % (what, sg.addr(r, c)))
        return
    for r in some(ws.nrows, [r for r, c in w['xf']], w['rows'], 40):
        for c in some(ws.ncols, [c for r, c in w['xf']], w['cols'], 30):
            want = w['xf'].get((r, c))
            if want is None:
                want = w['rows'].get(r, {}).get('xf_index', -1)
                if want < 0:
                    want = w['cols'].get(c, {}).get('xf_index', 15)
            got = ws.cell_xf_index(r, c), ws.cell(r, c).xf_index
            require(got == (want, want), '{}: xf index of cell {} is {}, expected {}', what, sg.addr(r, c), got, want)


def check(case, cov):
    with harness():
        w = xlsmeta.Writer(case)
        path = Scratch.write('b.xls', w.blob)
        states = [s['state'] if w.ver >= 50 else 0 for name, s in w.all if not s['chart']]
    book = xlrd.open_workbook(path, formatting_info=True, logfile=open('/dev/null', 'w'))
    equal(book.nsheets, len(w.wants), 'sheets')
    seen = set()
    for i, want in enumerate(w.wants):
        ws = book.sheet_by_index(i)
        what = 'BIFF %d, sheet %d' % (w.ver, i)
        check_sheet(ws, want, w.ver, states[i], book, what)
        check_formats(ws, want, w.ver, book, what)
        seen |= set(k for k in want if want[k] and k not in ('xf', 'gcw', 'defrow', 'attr'))
    for k in seen:
        cov.tag(k)
    cov.tag('BIFF%d' % w.ver)
    return len(seen) > 2


# -- xlsx
comment = st.fixed_dictionaries({
    'at': st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list), 'author': st.integers(0, 2),
    'text': xlsmeta.txt, 'how': st.integers(0, 3)})
xlsx_books = st.tuples(xlsxw.books, st.lists(st.lists(comment, max_size=4), min_size=3, max_size=3),
                       st.lists(xlsmeta.txt.map(lambda s: s.strip(xlsxw.WS)), min_size=3, max_size=3)).map(
    lambda t: dict(t[0], notes={'sheets': t[1], 'authors': t[2]}))


def check_xlsx(case, cov):
    with harness():
        w = xlsxw.Writer(case)
        path = Scratch.write('b.xlsx', w.blob)
    book = xlrd.open_workbook(path)
    n = 0
    sheets = [(s, case['notes']['sheets'][k % 3]) for k, (name, s) in enumerate(w.all) if not s['chart']]
    equal(book.nsheets, len(sheets), 'sheets')
    for i, (s, notes) in enumerate(sheets):
        ws = book.sheet_by_index(i)
        what = 'xlsx %s, sheet %d' % ({k: case['x'][k] for k in ('abs', 'case', 'back', 'pfx')}, i)
        equal(ws.visibility, s['state'], what + ': visibility')
        equal(list(map(tuple, ws.merged_cells)), [(r, r + dr + 1, c, c + dc + 1) for r, c, dr, dc in s['merge']],
              what + ': merged cells')
        want = {tuple(x['at']): x for x in notes}
        equal(sorted(ws.cell_note_map), sorted(want), what + ': cells with a note')
        for pos, x in want.items():
            attrs(ws.cell_note_map[pos], {'rowx': pos[0], 'colx': pos[1], 'text': x['text'],
                                          'author': case['notes']['authors'][x['author']]},
                  '%s: note at %s' % (what, sg.addr(*pos)))
        n += len(want) + len(s['merge'])
    cov.tagif(n, 'notes or merged ranges')
    return n > 0


SUBS = [Sub('xls', xlsmeta.books(VERSIONS, plain_look=True, tall=False), check, 3000, rule=RULE['xls']),
        Sub('xlsx', xlsx_books, check_xlsx, 1200, rule=RULE['xlsx'])]
