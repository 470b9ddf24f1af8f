"""Writes a workbook description (see sheetgen) as an xlsx file, in many lawful variants."""
import io
import re
import zipfile
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

import sheetgen as sg

MAIN = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
ODREL = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PKGREL = 'http://schemas.openxmlformats.org/package/2006/relationships'
WS = ' \t\n\r'

options = st.fixed_dictionaries({
    'pfx': st.booleans(), 'case': st.sampled_from([0, 0, 0, 1, 2, 3]), 'abs': st.sampled_from([0, 0, 1, 2, 3]),
    'pretty': st.booleans(), 'utf16': st.sampled_from([0, 0, 0, 1]),
    'rownum': st.sampled_from([1, 1, 1, 0, 2]), 'cellref': st.sampled_from([1, 1, 1, 0, 2]),
    'dim': st.sampled_from(['none', 'right', 'right', 'small', 'big', 'a1']),
    'comments': st.sampled_from([0, 0, 1]), 'props': st.booleans(), 'stored': st.booleans(),
    'names': st.booleans(), 'preserve': st.booleans(), 'unused': st.integers(0, 3),
    'perm': st.integers(0, 5), 'back': st.sampled_from([0, 0, 0, 1]), 'num': st.integers(0, 3),
    'nostyles': st.booleans(), 'dupsst': st.booleans(),
    'hex': st.sampled_from(['_x%04X_', '_x%04x_']), 'xml': st.sampled_from([0, 0, 0, 1, 2, 3]),
    'zip': st.sampled_from([0, 0, 0, 1]), 'order': st.sampled_from([0, 0, 0, 0, 1, 2]),
    'tpad': st.sampled_from(['', '', ' ', '\n  ']), 'sstroot': st.sampled_from([0, 0, 0, 0, 1]),
    'fmtid': st.sampled_from([0, 0, 0, 1, 2, 3])})

books = st.fixed_dictionaries({
    'sheets': st.lists(sg.sheet(), min_size=1, max_size=3), 'styles': sg.styles,
    'date1904': st.sampled_from([0, 0, 1]), 'x': options})

farbooks = st.fixed_dictionaries({
    'sheets': st.lists(sg.far_sheet(70000, 16383), min_size=1, max_size=1), 'styles': sg.styles, 'date1904': st.just(0),
    'x': options})


def xesc(s, fmt='_x%04X_'):
    """The _xHHHH_ escapes: for what XML cannot hold, and for text that looks like one."""
    s = re.sub(r'_(?=x[0-9A-Fa-f]{4}_)', (fmt % 0x5F), s)
    return re.sub('[\x00-\x08\x0b\x0c\x0e-\x1f\r\ufffe\uffff]', lambda m: fmt % ord(m.group()), s)


class Writer(object):
    def __init__(self, spec):
        self.spec = spec
        self.x = spec['x']
        self.p = 'x:' if self.x['pfx'] else ''
        self.sst = []
        self.sstx = {}
        specs = spec['sheets']
        if all(s['chart'] for s in specs):
            specs = [dict(s, chart=False) if i == 0 else s for i, s in enumerate(specs)]
        names = sg.unique_names(specs)
        self.all = list(zip(names, specs))
        self.sheets = []
        for name, s in self.all:
            if not s['chart']:
                sheet = sg.Sheet(name, sg.cells_of(s), s['merge'])
                self.sheets.append(sheet)
        self.datemode = spec['date1904']
        if self.x['nostyles'] and not any(c[0] == 'd' for n, s in self.all if not s['chart'] for c in sg.cells_of(s).values()):
            self.spec = dict(spec, styles=[['id', 0]])      # none is needed
        self.blob = self.write()

    # -- small things
    def tag(self, name, attrs='', body=None):
        t = self.p + name
        if attrs and not attrs.startswith(' '):
            attrs = ' ' + attrs
        if body is None:
            return '<%s%s/>' % (t, attrs)
        return '<%s%s>%s</%s>' % (t, attrs, body, t)

    def root(self, name, body, attrs=''):
        ns = 'xmlns%s="%s" xmlns:r="%s"' % (':x' if self.x['pfx'] else '', MAIN, ODREL)
        return self.doc(self.tag(name, ns + attrs, body))

    def doc(self, body):
        if self.x['utf16']:
            return ('<?xml version="1.0" encoding="UTF-16"?>\n' + body).encode('utf-16')
        return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n' + body).encode('utf-8')

    def t(self, text, name='t'):
        """A text element; white space at the ends needs xml:space."""
        body = self.chars(xesc(text, self.x['hex']))
        space = self.x['preserve'] or (text and (text[0] in WS or text[-1] in WS))
        if not space:           # not part of the text
            body = self.x.get('tpad', '') + body + self.x.get('tpad', '')
        return self.tag(name, 'xml:space="preserve"' if space else '', body)

    def chars(self, text):
        """Character data in one of the ways of XML."""
        how = self.x['xml']
        if how == 1:
            return ''.join('&#%d;' % ord(c) if ord(c) > 126 else escape(c) for c in text)
        if how == 2 and text:
            return '<![CDATA[%s]]>' % text.replace(']]>', ']]]]><![CDATA[>')
        if how == 3:
            k = len(text) // 2
            return escape(text[:k]) + '<!-- c -->' + escape(text[k:])
        return escape(text)

    def rich(self, text, how):
        """The content of si / is."""
        cut = len(text) // 2
        if not text and how == 1:       # no runs, no text
            return ''
        if how == 1:
            return (self.tag('r', '', self.tag('rPr', '', self.tag('b')) + self.t(text[:cut]))
                    + self.tag('r', '', self.t(text[cut:])))
        if how == 2:
            return (self.t(text) + self.tag('rPh', 'sb="0" eb="1"', self.t('phonetic'))
                    + self.tag('phoneticPr', 'fontId="1"'))
        return self.t(text)

    def shared(self, text, how):
        key = (text, how) if not self.x['dupsst'] else (text, how, len(self.sst))
        if key not in self.sstx:
            self.sstx[key] = len(self.sst)
            self.sst.append(self.rich(text, how))
            for _ in range(self.x['unused'] if len(self.sst) < 9 else 0):
                self.sst.append(self.t('unused'))
        return self.sstx[key]

    def number(self, v):
        s = repr(v)
        if self.x['num'] == 1 and v == int(v) and abs(v) < 1e15:
            s = str(int(v))
        elif self.x['num'] == 2:
            s = '%.17g' % v
        elif self.x['num'] == 3:
            s = '%.17E' % v
        return s

    def cell(self, ref, cell):
        tag = self.tag
        styles = self.spec['styles']
        k = cell[0]
        f = tag('f', '', 'A1+1')
        if k in 'nd':
            s = sg.style_of(styles, k, cell[2])
            body = tag('v', '', self.number(cell[1]))
            if cell[2] % 3 == 2:
                body = f + body
            return tag('c', ref + (' s="%d"' % s if s else '') + (' t="n"' if cell[2] % 4 == 1 else ''), body)
        if k == 'z':
            s = ' s="%d"' % (cell[1] % len(styles))
            if cell[1] > 3:     # no value either
                return tag('c', ref + s + ['', ' t="s"', ' t="n"', ' t="inlineStr"'][cell[1] - 4],
                           [f, None, tag('v'), None][cell[1] - 4])
            return tag('c', ref + s)
        s = ' s="%d"' % (cell[2] % len(styles)) if cell[2] % len(styles) else ''
        if k == 't':
            text, how = cell[1], cell[2]
            mode = how % 6
            if mode in (4, 5) and text:
                return tag('c', ref + s + ' t="inlineStr"', tag('is', '', self.rich(text, how % 3)))
            if mode == 3 and not text and how > 5:
                return tag('c', ref + s + ' t="str"', f)
            if mode == 3:
                return tag('c', ref + s + ' t="str"', (f if how % 2 else '') + self.t(text, 'v'))
            return tag('c', ref + s + ' t="s"', tag('v', '', str(self.shared(text, how % 3))))
        if k == 'b':
            # 0 and 1, as Excel does, or the words
            return tag('c', ref + s + ' t="b"', (f if cell[2] % 2 else '') + tag('v', '', str(cell[1]) if cell[2] % 4 < 2
                                                                               else ['false', 'true'][cell[1]]))
        return tag('c', ref + s + ' t="e"', (f if cell[2] % 2 else '') + tag('v', '', sg.ERRORS[cell[1]]))

    def sheet(self, spec):
        x, tag = self.x, self.tag
        cells = sg.cells_of(spec)
        byrow = {}
        for (r, c), cell in cells.items():
            byrow.setdefault(r, []).append((c, cell))
        nl = '\n  ' if x['pretty'] else ''
        out = []
        last = -1
        rows = sorted(byrow)
        order = x.get('order', 0) if x['rownum'] == 1 and x['cellref'] == 1 else 0    # the numbers tell the rows, not their order
        if order:
            rows = rows[::-1] if order == 1 else rows[1::2] + rows[::2]
        for r in rows:
            number = x['rownum'] == 1 or x['rownum'] == 2 and (r != last + 1 or r % 3 == 0)
            if not x['rownum']:
                out += [tag('row')] * (r - last - 1)
            last = r
            body = []
            lastc = -1
            for c, cell in sorted(byrow[r], key=lambda t: -t[0] if order == 2 else t[0]):
                ref = 'r="%s"' % sg.addr(r, c)
                if not x['cellref']:
                    body += [tag('c')] * (c - lastc - 1)
                    ref = ''
                elif x['cellref'] == 2 and c == lastc + 1 and (r + c) % 3:
                    ref = ''    # the one after the last
                lastc = c
                body.append(self.cell(ref, cell))
            out.append(tag('row', ('r="%d"' % (r + 1) if number else '')
                           + (' spans="1:9"' if x['num'] else ''), nl + nl.join(body) + nl))
        data = tag('sheetData', '', nl + nl.join(out) + nl)
        dim = ''
        if x['dim'] != 'none':
            nr = max([r for r, c in cells] + [0])
            nc = max([c for r, c in cells] + [0])
            ref = {'right': 'A1:' + sg.addr(nr, nc), 'small': 'A1:' + sg.addr(nr // 2, nc // 2),
                   'big': 'A1:' + sg.addr(nr + 7, min(nc + 3, 16383)), 'a1': 'A1'}[x['dim']]
            dim = tag('dimension', 'ref="%s"' % ref)
        merge = ''
        if spec['merge']:
            refs = []
            for r, c, dr, dc in spec['merge']:
                ref = sg.addr(r, c)
                if dr or dc or x['num'] == 1:
                    ref += ':' + sg.addr(r + dr, c + dc)
                refs.append(tag('mergeCell', 'ref="%s"' % ref))
            merge = tag('mergeCells', 'count="%d"' % len(refs), ''.join(refs))
        views = tag('sheetViews', '', tag('sheetView', 'workbookViewId="0"'))
        cols = tag('cols', '', tag('col', 'min="1" max="2" width="9" style="1"'))
        return self.root('worksheet', dim + views + cols + data + merge
                         + tag('pageMargins', 'left="0.7" right="0.7" top="0.7" bottom="0.7" '
                               'header="0.3" footer="0.3"'))

    def format_id(self, i):
        """The id of the i-th format. Usually above 163; the ones below can be given another meaning."""
        how = self.x.get('fmtid', 0)
        if how == 1:
            return 256 + 14 + i
        if how == 2:
            return 1000 + 251 * i
        free = [k for k in [5, 41, 20, 8, 44, 14, 6, 42, 22, 37, 47, 7, 43, 1, 10, 46, 15] if ['id', k] not in self.spec['styles']]
        return free[i] if how == 3 and i < len(free) else 164 + 3 * i

    def styles(self):
        tag = self.tag
        fmts, xfs = [], []
        for i, (kind, v) in enumerate(self.spec['styles']):
            n = v
            if kind != 'id':
                n = self.format_id(i)
                fmts.append(tag('numFmt', 'numFmtId="%d" formatCode=%s' % (n, quoteattr(v))))
            xfs.append(tag('xf', ('numFmtId="%d" ' % n if n or i == 0 else '') + 'fontId="0" fillId="0" borderId="0"'
                           + (' applyNumberFormat="1"' if i % 2 else '')))
        body = tag('numFmts', 'count="%d"' % len(fmts), ''.join(fmts)) if fmts else ''
        body += tag('fonts', 'count="1"', tag('font', '', tag('sz', 'val="11"')))
        body += tag('cellStyleXfs', '', tag('xf', 'numFmtId="14"') + tag('xf', 'numFmtId="0"'))
        body += tag('cellXfs', 'count="%d"' % len(xfs), ''.join(xfs))
        body += tag('cellStyles', '', tag('cellStyle', 'name="Normal" xfId="0" builtinId="0"'))
        return self.root('styleSheet', body)

    def notes_of(self, k):
        """The content of the comments part of the k-th sheet, or None."""
        tag = self.tag
        if 'notes' not in self.spec:
            if not self.x['comments']:
                return None
            authors, notes = ['me'], [{'at': (1, 1), 'author': 0, 'text': 'a note too', 'how': 1}]
        else:
            authors, notes = self.spec['notes']['authors'], self.spec['notes']['sheets'][k % 3]
            if not notes and self.x['num'] % 2:
                return None
        seen = {tuple(n['at']): n for n in notes}       # one note for each cell
        out = ''
        for at, n in seen.items():
            text, cut = n['text'], len(n['text']) // 2
            if n['how'] == 3:           # text and runs
                body = self.t(text[:cut]) + tag('r', '', self.t(text[cut:]))
            elif n['how'] == 1:
                body = tag('r', '', tag('rPr', '', tag('b')) + self.t(text[:cut])) + tag('r', '', self.t(text[cut:]))
            else:
                body = self.t(text)
            if n['how'] == 2:
                body += tag('phoneticPr', 'fontId="1"')
            out += tag('comment', 'ref="%s" authorId="%d"' % (sg.addr(*at), n['author']), tag('text', '', body))
        return (tag('authors', '', ''.join(tag('author', '', self.chars(xesc(a, self.x['hex']))) for a in authors)) + tag('commentList', '', out))

    def partname(self, name):
        case = self.x['case']
        if case == 1:
            return name.lower()
        if case == 2:
            return name.replace('sheet', 'Sheet').replace('comments', 'Comments')
        if case == 3:
            return name.upper() if not name.startswith('[') else name
        return name

    def write(self):
        x, tag = self.x, self.tag
        parts = []
        n = len(self.all)
        order = list(range(n))
        if x['perm']:
            k = x['perm'] % n if n else 0
            order = order[k:] + order[:k]
            if x['perm'] % 2:
                order.reverse()
        rels, sheets = [], []
        # file number and relation id are deliberately unrelated to the tab order
        for pos, (name, spec) in enumerate(self.all):
            num = order[pos] + 1
            if spec['chart']:
                target, typ = 'chartsheets/sheet%d.xml' % num, 'chartsheet'
                parts.append(('xl/' + target, self.root('chartsheet', tag('sheetViews'))))
            else:
                target, typ = 'worksheets/sheet%d.xml' % num, 'worksheet'
                parts.append((('xl/' + target) if x['abs'] != 2 else 'parts/sheet%d.xml' % num, self.sheet(spec)))
                notes = self.notes_of(pos)
                if notes is not None:
                    folder = 'xl/worksheets' if x['abs'] != 2 else 'parts'
                    place = 'xl/comments%d.xml' % num if x['num'] % 2 else 'xl/comments/comment%d.xml' % num
                    parts.append((place, self.root('comments', notes)))
                    to = ['../' * (folder.count('/') + 1) + place, '/' + place][x['abs'] in (1, 2)]
                    if x['abs'] == 0 and x['num'] > 1:
                        to = place.replace('xl/', '../')
                    to = self.partname(to)
                    if x['back']:
                        to = to.replace('/', '\\')
                    parts.append(('%s/_rels/sheet%d.xml.rels' % (folder, num), self.rels([
                        ('rId1', 'comments', to), ('rId2', 'vmlDrawing', '../drawings/v%d.vml' % num)])))
            target = self.partname(target)
            if x['abs'] == 1 or (x['abs'] == 2 and spec['chart']):
                target = '/' + self.partname('xl/') + target
            elif x['abs'] == 2:
                target = '/' + self.partname('parts/sheet%d.xml' % num)
            elif x['abs'] == 3:
                target = '../' + self.partname('xl/') + './' + target
            if x['back']:
                target = target.replace('/', '\\')
            rels.append(('rId%d' % (num + 5), typ, target))
            state = ['', ' state="hidden"', ' state="veryHidden"'][spec['state']]
            sheets.append(tag('sheet', 'name=%s sheetId="%d" r:id="rId%d"%s'
                              % (quoteattr(xesc(name, x['hex'])), num * 3, num + 5, state)))
        usesst = bool(self.sst)
        rels.append(('rId1', 'styles', 'styles.xml'))
        if usesst:
            root = x.get('sstroot')
            rels.append(('rId2', 'sharedStrings', '/sharedStrings.xml' if root else 'sharedStrings.xml'))
            nl = '\n ' if x['pretty'] else ''
            parts.append(('sharedStrings.xml' if root else 'xl/sharedStrings.xml', self.root('sst', nl + nl.join(
                tag('si', '', s) for s in self.sst), ' count="99" uniqueCount="%d"' % len(self.sst))))
        if x['perm'] % 2:
            rels.reverse()
        wb = tag('workbookPr', ('date1904="%s"' % ('1' if x['num'] % 2 else 'true')) if self.datemode
                 else ('' if x['num'] % 2 else 'date1904="0"'))
        wb += tag('bookViews', '', tag('workbookView', 'activeTab="0"')) + tag('sheets', '', ''.join(sheets))
        if 'defined' in self.spec:
            body = ''
            for d in self.spec['defined']:
                attrs = 'name=%s' % quoteattr(d['name'])
                if d['scope'] is not None:
                    attrs += ' localSheetId="%d"' % d['scope']
                for k, v in d['flags'].items():
                    attrs += ' %s="%s"' % (k, v)
                body += tag('definedName', attrs, escape(xesc(d['formula'], x['hex'])))
            wb += tag('definedNames', '', body)
        elif x['names']:
            wb += tag('definedNames', '', tag('definedName', 'name="_xlnm.Print_Area" localSheetId="0"', '$A$1')
                      + tag('definedName', 'name="sheet"', '$B$2'))
        plain = all(s == ['id', 0] for s in self.spec['styles'])
        if plain and x['nostyles'] and x['perm'] % 3 == 1:
            parts.append(('xl/styles.xml', self.root('styleSheet', '')))
        elif not (plain and x['nostyles']):
            parts.append(('xl/styles.xml', self.styles()))
        parts.append(('xl/workbook.xml', self.root('workbook', wb)))
        parts.append(('xl/_rels/workbook.xml.rels', self.rels(rels)))
        parts.append(('_rels/.rels', self.rels([('rId1', 'officeDocument', 'xl/workbook.xml')])))
        if x['props']:
            parts.append(('docProps/core.xml', self.doc(
                '<cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/'
                'core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" '
                'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">'
                + ''.join('<%s>%s</%s>' % (t, escape(v), t) if v or k % 2 else '<%s/>' % t for k, (t, v) in enumerate(
                    x.get('facts') or [['dc:creator', 'me']])) + '</cp:coreProperties>')))
        parts.append(('[Content_Types].xml', self.doc('<Types xmlns="http://schemas.openxmlformats.org/'
                                                      'package/2006/content-types"/>')))
        if x['perm'] % 3 != 1:
            parts.reverse()
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, 'w', zipfile.ZIP_STORED if x['stored'] else zipfile.ZIP_DEFLATED) as zf:
            if x['zip']:
                zf.comment = b'a comment'
                for d in ('xl/', 'xl/worksheets/'):
                    zf.writestr(zipfile.ZipInfo(self.partname(d), (2021, 3, 4, 5, 6, 8)), b'')
            for name, blob in parts:
                zi = zipfile.ZipInfo(self.partname(name), (2021, 3, 4, 5, 6, 8))
                zi.compress_type = zipfile.ZIP_STORED if x['stored'] else zipfile.ZIP_DEFLATED
                zf.writestr(zi, blob)
        return bio.getvalue()

    def rels(self, rels):
        body = ''.join('<Relationship Id="%s" Type="%s/%s" Target=%s/>' % (i, ODREL, t, quoteattr(target))
                       for i, t, target in rels)
        return self.doc('<Relationships xmlns="%s">%s</Relationships>' % (PKGREL, body))
