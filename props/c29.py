"""C29: a workbook is told by its content; what is no workbook is refused."""
import io
import zipfile

from hypothesis import strategies as st

from channelpack import sheetpack, xlrd
from core import Sub, Scratch, harness, require, raises
import anybook
import xlsw
from c18 import compare_book, compare_pack

RULE = {
    'refused': 'A case is a file that is no workbook: any bytes or text, empty, html or xml, dBase or csv, a zip archive '
               'of other parts (xlsb, ods, docx, none), a compound document without a workbook stream at its root, an '
               'encrypted workbook of any version, a BIFF stream of another type or unknown version, under any file '
               'name. Opening it by name (with and without memory mapping) and from its bytes, and sheetpack, raise '
               'XLRDError. Every non-empty case is non-trivial.',
    'read': 'A case is a workbook of any format under any file name (extension of another format, none, upper case, '
            'blanks and other letters); all cells are read as stored by name and from its bytes. Non-trivial: the '
            'extension is not that of the format.'}

BOFS = (0x0009, 0x0209, 0x0409, 0x0809)
names = st.one_of(
    st.sampled_from(['b.xls', 'b.xlsx', 'B.XLS', 'b.xlsm', 'b', 'b.txt', 'b.csv', 'a b.xls', '.xls', 'b.xlsb', 'b.ods',
                     'b.zip', 'ä.xls', '数.xlsx', 'b.xls.xlsx', 'b.xlsx.xls', 'b.dbf', '[b]', '%41.xls', '#.xls']),
    st.text(st.characters(codec='utf-8', exclude_categories=('Cs', 'Cc')), min_size=1, max_size=12).filter(
        lambda s: '/' not in s and s.strip('.') and len(s.encode()) < 100))

texts = st.sampled_from([
    '', 'time, speed\n1,2\n', '<html><body><table><tr><td>1</td></tr></table></body></html>',
    '<?xml version="1.0"?>\n<Workbook xmlns="urn:schemas-microsoft-com:office:spreadsheet"></Workbook>',
    '{"a": 1}', '%PDF-1.4\n', 'ID;PWXL;N;E\n', 'PK', 'PK\x05\x06', '\ufeffa;b\n'])
zipnames = st.lists(st.sampled_from([
    'content.xml', 'xl/workbook.bin', 'word/document.xml', 'META-INF/manifest.xml', 'mimetype', '[Content_Types].xml',
    'xl/worksheets/sheet1.xml', 'workbook.xml', 'xl/workbook.xml.bak', 'xl/workbook.xm', 'data/xl/workbook.xml',
    'xl/', 'a.csv', 'Content.xml', 'XL/WORKBOOK.BIN', 'xl/sharedStrings.xml', 'xlworkbook.xml']), max_size=5, unique=True)
olestreams = st.sampled_from(['WordDocument', 'PowerPoint Document', 'Contents', 'Work', 'Workbook2', 'Books', 'ook',
                              '1Table', 'EncryptedPackage', 'workbook.xml', ' Workbook'])
plain = dict(maxsheets=2, tall=False)
junk = st.one_of(
    st.tuples(st.just('bytes'), st.one_of(st.binary(max_size=60), st.binary(max_size=4)).map(lambda b: b.decode('latin-1'))),
    st.tuples(st.just('text'), texts),
    st.tuples(st.just('zip'), zipnames),
    st.tuples(st.just('ole'), st.tuples(anybook.books(formats=[80, 70, 50], **plain), olestreams)),
    st.tuples(st.just('locked'), st.tuples(anybook.books(formats=[80, 80, 70, 50, 45, 40, 30, 21, 20], **plain),
                                           st.integers(0, 2))),
    st.tuples(st.just('bof'), st.tuples(
        st.sampled_from(BOFS), st.sampled_from([0x600, 0x500, 0x400, 0x300, 0x200, 7, 0, 0x700, 0x1234]),
        st.sampled_from([0x06, 0x20, 0x40, 0x100, 0x05, 0x10, 0x15, 0]), st.integers(0, 24), st.booleans(),
        st.sampled_from([0, 0, 1, 3]))))
cases = st.fixed_dictionaries({'what': junk.map(list), 'name': names})


def blob_of(kind, arg):
    """The bytes of the file, or None if it may be a workbook after all."""
    if kind == 'bytes':
        b = arg.encode('latin-1')
        if b[:2] in (b'\x09\x00', b'\x09\x02', b'\x09\x04', b'\x09\x08') or b[:4] == b'PK\x03\x04' or \
                b[:8] == b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
            return None
        return b
    if kind == 'text':
        return arg.encode('utf-8')
    if kind == 'zip':
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w') as zf:
            for name in arg:
                zf.writestr(name, '' if name.endswith('/') else '<a/>')
        # an empty archive starts with its central directory
        return out.getvalue()
    if kind in ('ole', 'locked'):
        book = dict(arg[0], x=dict(arg[0]['x']))
        if kind == 'ole':
            book['x'].update(raw=0, stream=arg[1])
        else:
            book['x'].update(filepass=arg[1])
        return anybook.writer(book).blob
    op, version, typ, length, more, cut = arg
    v = {0x0009: 21, 0x0209: 30, 0x0409: 40}.get(op)
    if v is None:
        v = {0x600: 80, 0x500: 70, 0: 21, 7: 21, 0x200: 21, 0x300: 30, 0x400: 40}.get(version, 0)
    good = (typ == 5) or (typ == 0x10 and v < 50) or (v == 40 and typ == 0x100)
    if good and v and 4 <= length <= 20 and not cut:
        return None
    body = (version.to_bytes(2, 'little') + typ.to_bytes(2, 'little') + b'\x8a\x1d\xcd\x07' + b'\0' * 20)[:length]
    data = op.to_bytes(2, 'little') + length.to_bytes(2, 'little') + body
    if cut:
        if length < 4 or length > 20:
            cut = 0
        else:
            return data[:-cut]
    return data + (xlsw.rec(0x200, b'\0' * 14) + xlsw.rec(0x0A) if more else b'')


def check(case, cov):
    kind, arg = case['what']
    with harness():
        blob = blob_of(kind, arg)
        if blob is None:
            return False
        path = Scratch.write(case['name'], blob)
    what = '%s file %r of %d bytes' % (kind, case['name'], len(blob))
    for kw in ({}, {'use_mmap': False}):
        raises(xlrd.XLRDError, lambda: xlrd.open_workbook(path, **kw), 'open_workbook(%r) of a %s' % (kw, what))
    if blob:
        raises(xlrd.XLRDError, lambda: xlrd.open_workbook(file_contents=blob), 'open_workbook of the bytes of a ' + what)
        raises(xlrd.XLRDError, lambda: xlrd.open_workbook(path, on_demand=True), 'open_workbook on demand of a ' + what)
    raises(xlrd.XLRDError, lambda: sheetpack(path), 'sheetpack of a ' + what)
    cov.tag(kind)
    return bool(blob)


read_cases = st.fixed_dictionaries({'book': anybook.books(**plain), 'name': names})


def check_read(case, cov):
    with harness():
        w = anybook.writer(case['book'])
        path = Scratch.write(case['name'], w.blob)
    what = '%s file %r' % (case['book']['fmt'], case['name'])
    compare_book(xlrd.open_workbook(path), w.sheets, w.datemode, what)
    compare_book(xlrd.open_workbook(file_contents=w.blob), w.sheets, w.datemode, what)
    if w.sheets[0].ncols:
        compare_pack(sheetpack(path), w.sheets[0], w.datemode, what, True, path)
    suffix = '.' + case['name'].rpartition('.')[2]
    cov.tagif(suffix != anybook.suffix(case['book']), 'other extension')
    return suffix != anybook.suffix(case['book'])


SUBS = [Sub('refused', cases, check, 5000, rule=RULE['refused']),
        Sub('read', read_cases, check_read, 1500, rule=RULE['read'])]
