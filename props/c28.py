"""C28: a workbook cut short is refused or read in full, never in part."""
from hypothesis import strategies as st

from channelpack import sheetpack, xlrd
from core import Sub, Scratch, harness, require, Violation
import anybook
from c18 import compare_book, compare_pack

RULE = ('A case is a generated workbook in any format and up to 6 places to cut it (anywhere, near the end, at '
        'sector and record boundaries). Opening the cut file, and sheetpack of it, raise or give exactly the cells of '
        'the whole workbook. Non-trivial: a cut in the second half of the file that is refused.')

cut = st.one_of(st.tuples(st.just('frac'), st.integers(0, 999)), st.tuples(st.just('end'), st.integers(1, 600)),
                st.tuples(st.just('sector'), st.integers(1, 40)), st.tuples(st.just('end'), st.integers(1, 12)),
                st.tuples(st.just('record'), st.integers(0, 400))).map(list)
cases = st.fixed_dictionaries({'book': anybook.books(formats=['xlsx', 80, 80, 70, 50, 45, 40, 30, 21, 20], maxsheets=2, tall=False),
                               'cuts': st.lists(cut, min_size=1, max_size=6)})


@st.composite
def shuffled(draw):
    """OLE2 files with the sectors of all streams in any order, the last ones cut."""
    book = draw(anybook.books(formats=[80, 80, 70, 50], maxsheets=2, tall=False))
    book['x'].update(raw=0, frag=draw(st.sampled_from([1, 2, 6, 7, 11, 12, 16, 17])))
    return {'book': book, 'cuts': draw(st.lists(st.tuples(st.sampled_from(['end', 'end', 'end', 'sector']),
                                                          st.integers(1, 512)).map(
        lambda t: [t[0], t[1] if t[0] == 'end' else 1 + t[1] % 4]), min_size=2, max_size=8))}


def record_ends(blob):
    out, pos = [], 0
    while pos + 4 <= len(blob):
        pos += 4 + int.from_bytes(blob[pos + 2:pos + 4], 'little')
        out.append(pos)
    return [p for p in out if p < len(blob)]


def check(case, cov):
    with harness():
        w = anybook.writer(case['book'])
        total = len(w.blob)
        ole = w.blob[:4] == b'\xd0\xcf\x11\xe0'
        raw = not ole and w.blob[:2] != b'PK'
        ends = record_ends(w.blob) if raw else []
    rich = False
    for kind, n in case['cuts']:
        with harness():
            if kind == 'frac':
                at = total * n // 1000
            elif kind == 'end':
                at = total - n
            elif kind == 'sector':
                at = total - 512 * n
            else:
                at = ends[n % len(ends)] if ends else total - n
            at = max(1, min(at, total - 1))
            path = Scratch.write('cut' + anybook.suffix(case['book']), w.blob[:at])
            what = '%s file of %d bytes cut to %d' % (case['book']['fmt'], total, at)
        try:
            book = xlrd.open_workbook(path)
        except Exception as exc:
            cov.tag('refused')
            rich |= at > total // 2
        else:
            compare_book(book, w.sheets, w.datemode, what)
            cov.tag('read in full')
        for i, sheet in enumerate(w.sheets):
            if not sheet.ncols:
                continue
            try:
                pack = sheetpack(path, sheet=i)
            except Exception:
                continue
            compare_pack(pack, sheet, w.datemode, what, True, path)
    return rich


SUBS = [Sub('cuts', cases, check, 3000, rule=RULE),
        Sub('sectors', shuffled(), check, 2500, rule=RULE)]
