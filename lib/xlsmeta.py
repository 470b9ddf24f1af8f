"""Workbooks (see xlsw) with all that is stored beside the values of cells: formatting, notes, links, layout.

The description of a book gets an entry 'm': {'sheets': [layout of each sheet], 'look': formatting of the book}.
Values are drawn without regard to the width of the field of the file version; Writer cuts them, and expects them cut.
"""
import struct

from hypothesis import strategies as st

import sheetgen as sg
import xlsw
from xlsw import pack, rec, ustr

bit = st.integers(0, 1)
u8 = st.integers(0, 255)
u16 = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 0x7FFF, 0x8000, 0xFFFF]))
u32 = st.integers(0, 2**32 - 1)
row = st.one_of(st.integers(0, 12), st.integers(0, 16383))
col = st.one_of(st.integers(0, 12), st.integers(0, 255))
txt = st.one_of(sg.texts, st.sampled_from(['', 'a', 'né', 'Ωmega', 'x😀y', 'http://a.b/c?d=1#e', 'C:\\dir\\a.txt']),
                st.tuples(st.sampled_from(['ab', 'é', 'Ωa']), st.integers(0, 300)).map(lambda t: (t[0] * t[1])[:t[1]]))
notxt = txt.map(lambda s: s.replace('\0', '0'))
span = st.tuples(row, st.integers(0, 4), col, st.integers(0, 4)).map(list)      # row, more rows, col, more cols


def opt(s):
    return st.one_of(st.none(), s)


def few(s, n=3):
    return st.one_of(st.just([]), st.lists(s, max_size=n))


notes = st.fixed_dictionaries({
    'at': st.tuples(st.integers(0, 40), st.integers(0, 20)).map(list), 'flags': u16, 'author': txt, 'text': txt,
    'cut': st.lists(st.integers(1, 9), max_size=3), 'wide': bit, 'pad': bit,
    'runs': st.lists(st.tuples(st.integers(0, 30), st.integers(0, 9)).map(list), max_size=4), 'runcut': st.integers(0, 3),
    'end': st.integers(0, 2)})
links = st.fixed_dictionaries({
    'at': span, 'kind': st.sampled_from(['url', 'local file', 'unc', 'workbook']), 'desc': opt(notxt),
    'target': opt(notxt), 'mark': opt(notxt), 'path': notxt, 'up': st.integers(0, 3), 'short': bit, 'guff': bit,
    'tip': opt(notxt), 'extra': bit, 'site': bit})
rows = st.tuples(row, u16, st.integers(0, 2**30 - 1), st.integers(0, 9)).map(list)
cols = st.tuples(col, st.one_of(st.integers(0, 5), st.integers(0, 256)), u16, st.integers(0, 9), u16).map(list)
layout = st.fixed_dictionaries({
    'rows': few(rows, 5), 'cols': few(cols, 4), 'defcol': opt(st.integers(0, 255)), 'std': opt(u16),
    'gcw': opt(st.lists(u32, min_size=8, max_size=8)), 'defrow': opt(st.tuples(u16, u16).map(list)),
    'win': opt(st.tuples(u16, row, col, u16, st.sampled_from([0, 0, 9, 10, 60, 100, 400, 401]),
                         st.sampled_from([0, 0, 9, 10, 75, 400, 401, 65535]), u32).map(list)),
    'scl': opt(st.tuples(st.integers(0, 500), st.sampled_from([0, 1, 2, 3, 100, 4, 7, 150, 200])).map(list)),
    'pane': opt(st.tuples(u16, u16, row, col, st.integers(0, 3)).map(list)),
    'hbreaks': few(st.tuples(row, col, col).map(list)), 'vbreaks': few(st.tuples(col, row, row).map(list)),
    'merges': few(st.lists(span, max_size=3), 2), 'rowlabels': few(span), 'collabels': few(span),
    'notes': few(notes), 'links': few(links), 'attr': st.lists(st.tuples(bit, bit, st.integers(0, 3), u8).map(list),
                                                               min_size=1, max_size=4)})
fonts = st.fixed_dictionaries({
    'height': u16, 'flags': st.integers(0, 63), 'colour': st.sampled_from([0, 8, 9, 23, 63, 64, 0x7FFF]), 'weight': u16,
    'esc': st.integers(0, 2), 'under': st.sampled_from([0, 1, 2, 33, 34]), 'family': st.integers(0, 5), 'charset': u8,
    'name': st.one_of(st.sampled_from(['Arial', '', 'ＭＳ Ｐゴシック', 'Übel']), sg.texts.map(lambda s: s[:30])),
    'efont': opt(st.sampled_from([0, 8, 23, 0x7FFF]))})
xfs = st.fixed_dictionaries({
    'font': st.integers(0, 7), 'locked': bit, 'hidden': bit, 'lotus': bit, 'parent': st.one_of(st.integers(0, 20), st.integers(0, 1200)),
    'hor': u8, 'wrap': bit, 'vert': u8, 'rot': u8, 'indent': u8, 'shrink': bit, 'dir': st.integers(0, 3),
    'used': st.integers(0, 63), 'line': st.lists(u8, min_size=5, max_size=5),
    'colour': st.lists(u8, min_size=5, max_size=5), 'down': bit, 'up': bit, 'fill': u8, 'pat': u8, 'bg': u8,
    'junk': bit})
stylexf = st.one_of(st.integers(0, 14), st.integers(15, 1100))
styles = st.one_of(
    st.tuples(st.just('builtin'), st.integers(0, 9), st.integers(0, 6), stylexf).map(list),
    st.tuples(st.just('user'), st.one_of(st.sampled_from(['Good', 'Ω', 'à la carte']), sg.texts.map(lambda s: s[:30])),
              st.just(0), stylexf).map(list))
look = st.fixed_dictionaries({
    'fonts': st.lists(fonts, min_size=1, max_size=8), 'xfs': st.lists(xfs, min_size=2, max_size=6),
    'palette': opt(st.tuples(st.integers(0, 56), st.lists(u32, min_size=1, max_size=56), bit).map(list)),
    'styles': few(styles, 4)})

NAMES = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent', 'Comma [0]', 'Currency [0]',
         'Hyperlink', 'Followed Hyperlink']


def books(versions, plain_look=False, plain_layout=False, **kw):
    base = xlsw.books(versions, **kw)
    return st.tuples(base, st.lists(layout if not plain_layout else st.none(), min_size=3, max_size=3),
                     look if not plain_look else st.none()).map(
        lambda t: dict(t[0], m={'sheets': t[1], 'look': t[2]}))


class Writer(xlsw.Writer):
    def __init__(self, spec):
        self.m = spec['m']
        spec = dict(spec, x=dict(spec['x'], extra=0))
        # what a reader has to see, per worksheet
        self.want = {}
        super().__init__(spec)
        self.wants = [self.want[k] for k, (name, s) in enumerate(self.all) if not s['chart']]

    # -- the book
    def fonts(self):
        look = self.m['look']
        if look is None:
            return super().fonts()
        out = b''
        self.wantfonts = want = []
        for f in look['fonts']:
            if len(want) == 4:
                want.append(None)
            name = self.text(f['name'])
            flags = f['flags']
            d = {'font_index': len(want), 'height': f['height'], 'name': name, 'bold': flags & 1,
                 'italic': flags >> 1 & 1, 'underlined': flags >> 2 & 1, 'struck_out': flags >> 3 & 1}
            if self.ver >= 50:
                out += rec(0x31, pack('<HHHHHBBBB', f['height'], flags, f['colour'], f['weight'], f['esc'], f['under'],
                                      f['family'], f['charset'], 0) + self.anystr(name, 1, f['esc'] == 1))
                d.update(outline=flags >> 4 & 1, shadow=flags >> 5 & 1, colour_index=f['colour'], weight=f['weight'],
                         escapement=f['esc'], underline_type=f['under'], family=f['family'],
                         character_set=f['charset'])
            else:
                d.update(weight=700 if flags & 1 else 400, escapement=0, underline_type=flags >> 2 & 1, family=0,
                         character_set=1)
                if self.ver >= 30:
                    out += rec(0x231, pack('<HHH', f['height'], flags, f['colour']) + self.bstr(name, 1))
                    d.update(outline=flags >> 4 & 1, shadow=flags >> 5 & 1, colour_index=f['colour'])
                else:
                    out += rec(0x31, pack('<HH', f['height'], flags) + self.bstr(name, 1))
                    d.update(outline=0, shadow=0, colour_index=0x7FFF)
                    if f['efont'] is not None:
                        out += rec(0x45, pack('<H', f['efont']))
                        d['colour_index'] = f['efont']
            want.append(d)
        return out

    def xfs(self):
        look = self.m['look']
        if look is None or self.ver == 20:
            return super().xfs()
        nstyle = 15 if self.ver >= 30 else 1
        self.xf0 = nstyle + 1 + self.pad
        self.wantxfs = []
        keys = [0] * self.xf0 + [key for key, code in self.style_table()]
        return b''.join(self.one_xf(look['xfs'][i % len(look['xfs'])], key, i < nstyle, len(keys))
                        for i, key in enumerate(keys))

    def one_xf(self, a, key, style, n):
        """A record with the attributes a; what is to be read is noted."""
        v = self.ver
        font = a['font']
        prot = a['locked'] | a['hidden'] << 1 | (4 if style else 0) | a['lotus'] << 3
        parent = 0xFFF if style else a['parent']
        d = {'xf_index': len(self.wantxfs), 'font_index': font, 'format_key': key, 'is_style': int(style),
             'parent_style_index': 0xFFF if style else (a['parent'] if a['parent'] < n else 0),
             'lotus_123_prefix': a['lotus'], 'protection.cell_locked': a['locked'],
             'protection.formula_hidden': a['hidden'], 'alignment.hor_align': a['hor'] & 7,
             'alignment.text_wrapped': a['wrap']}
        for i, s in enumerate(('format', 'font', 'alignment', 'border', 'background', 'protection')):
            d['_%s_flag' % s] = a['used'] >> i & 1
        line, colour = a['line'], a['colour']
        sides = ('left', 'right', 'top', 'bottom', 'diag')
        low = a['junk'] * 3
        if v >= 80:
            d.update({'alignment.vert_align': a['vert'] & 7, 'alignment.rotation': a['rot'],
                      'alignment.indent_level': a['indent'] & 15, 'alignment.shrink_to_fit': a['shrink'],
                      'alignment.text_direction': a['dir'], 'border.diag_down': a['down'], 'border.diag_up': a['up'],
                      'background.fill_pattern': a['fill'] & 63, 'background.pattern_colour_index': a['pat'] & 127,
                      'background.background_colour_index': a['bg'] & 127})
            for i, s in enumerate(sides):
                d['border.%s_line_style' % s] = line[i] & 15
                d['border.%s_colour_index' % s] = colour[i] & 127
            L, C = [x & 15 for x in line], [x & 127 for x in colour]
            b1 = L[0] | L[1] << 4 | L[2] << 8 | L[3] << 12 | C[0] << 16 | C[1] << 23 | a['down'] << 30 | a['up'] << 31
            b2 = C[2] | C[3] << 7 | C[4] << 14 | L[4] << 21 | (a['fill'] & 63) << 26
            b3 = a['pat'] & 127 | (a['bg'] & 127) << 7
            self.wantxfs.append(d)
            return rec(0xE0, pack('<HHHBBBBIIH', font, key, prot | parent << 4,
                                  a['hor'] & 7 | a['wrap'] << 3 | (a['vert'] & 7) << 4, a['rot'],
                                  a['indent'] & 15 | a['shrink'] << 4 | a['dir'] << 6, a['used'] << 2 | low, b1, b2, b3))
        d.update({'alignment.indent_level': 0, 'alignment.shrink_to_fit': 0, 'alignment.text_direction': 0,
                  'border.diag_down': 0, 'border.diag_up': 0, 'border.diag_line_style': 0,
                  'border.diag_colour_index': 0})
        if v < 30:
            for s in ('format', 'font', 'alignment', 'border', 'background', 'protection'):
                d['_%s_flag' % s] = 1
            d['is_style'] = 0
            d['parent_style_index'] = 0
            d['lotus_123_prefix'] = None
            d['alignment.text_wrapped'] = 0
            d['alignment.vert_align'], d['alignment.rotation'] = 2, 0
            self.simple(d, line[0])
            d['alignment.hor_align'] = line[0] & 7
            self.wantxfs.append(d)
            return rec(0x43, pack('<BBBB', font, 0, key | a['locked'] << 6 | a['hidden'] << 7, line[0]))
        orient = a['rot'] & 3
        bits = 127 if v >= 50 else 31
        L, C = [x & 7 for x in line], [x & bits for x in colour]
        for i, s in enumerate(sides[:4]):
            d['border.%s_line_style' % s] = L[i]
            d['border.%s_colour_index' % s] = C[i]
        d['background.fill_pattern'] = a['fill'] & 63
        d['background.pattern_colour_index'] = a['pat'] & bits
        d['background.background_colour_index'] = a['bg'] & bits
        d['alignment.rotation'] = [0, 255, 90, 180][orient]
        d['alignment.vert_align'] = a['vert'] & (7 if v >= 50 else 3)
        if v == 30:
            d['alignment.vert_align'], d['alignment.rotation'] = 2, 0
        self.wantxfs.append(d)
        align = a['hor'] & 7 | a['wrap'] << 3
        if v >= 50:
            b1 = a['pat'] & 127 | (a['bg'] & 127) << 7 | (a['fill'] & 63) << 16 | L[3] << 22 | C[3] << 25
            b2 = L[2] | L[0] << 3 | L[1] << 6 | C[2] << 9 | C[0] << 16 | C[1] << 23
            return rec(0xE0, pack('<HHHBBII', font, key, prot | parent << 4, align | (a['vert'] & 7) << 4,
                                  orient | a['used'] << 2, b1, b2))
        bk = a['fill'] & 63 | (a['pat'] & 31) << 6 | (a['bg'] & 31) << 11
        bd = L[2] | C[2] << 3 | L[0] << 8 | C[0] << 11 | L[3] << 16 | C[3] << 19 | L[1] << 24 | C[1] << 27
        if v >= 40:
            return rec(0x443, pack('<BBHBBHI', font, key, prot | parent << 4,
                                   align | (a['vert'] & 3) << 4 | orient << 6, a['used'] << 2 | low, bk, bd))
        return rec(0x243, pack('<BBBBHHI', font, key, prot, a['used'] << 2 | low, align | parent << 4, bk, bd))

    @staticmethod
    def simple(d, byte):
        """Border and background of the one byte of BIFF 2."""
        for i, s in enumerate(('left', 'right', 'top', 'bottom')):
            on = byte >> (3 + i) & 1
            d['border.%s_line_style' % s] = on
            d['border.%s_colour_index' % s] = 8 if on else 0
        d['background.fill_pattern'] = 17 if byte & 0x80 else 0
        d['background.background_colour_index'], d['background.pattern_colour_index'] = 9, 8

    def styles_and_palette(self):
        look = self.m['look']
        if look is None:
            return super().styles_and_palette()
        out = b''
        self.wantstyles = {}
        for kind, v, level, xf in look['styles'] if self.ver >= 30 else ():
            xf = xf if xf < self.xf0 else xf % 15
            if kind == 'builtin':
                out += rec(0x293, pack('<HBB', 0x8000 | xf, v, level if v in (1, 2) else 0xFF))
                self.wantstyles[NAMES[v] + (str(level + 1) if v in (1, 2) else '')] = (1, xf)
            else:
                name = self.text(v)
                if not name:
                    continue            # a style has a name
                out += rec(0x293, pack('<H', xf) + self.anystr(name, 2 if self.ver >= 80 else 1))
                self.wantstyles[name] = (0, xf)
        self.wantpalette = None
        if look['palette'] is not None and self.ver >= 30:
            n, colours, more = look['palette']
            n = min(n, 56 if self.ver >= 50 else 16)
            body = [colours[i % len(colours)] for i in range(n)]
            out += rec(0x92, pack('<H', n) + b''.join(pack('<I', c) for c in body) + b'\0' * (2 * more))
            self.wantpalette = [(c & 255, c >> 8 & 255, c >> 16 & 255) for c in body]
        return out

    # -- the sheets
    def addr(self, r, c, cell):
        out = super().addr(r, c, cell)
        k = self.now
        want = self.want[k]
        if self.ver == 20:
            m = self.m['sheets'][k % 3]
            if m is not None:
                i = self.xfidx(cell)
                locked, hidden, font, align = m['attr'][(r + c) % len(m['attr'])]
                out = out[:4] + bytes([locked << 6 | hidden << 7, font << 6 | i, align])
                want['attr'][r, c] = (i, locked, hidden, font, align)
        else:
            want['xf'][r, c] = self.xf0 + self.xfidx(cell)
        return out

    def cells(self, cells):
        # MULRK and MULBLANK do not go through addr()
        want = self.want[self.now]
        if self.ver >= 30:
            for pos, cell in cells.items():
                want['xf'][pos] = self.xf0 + self.xfidx(cell)
        for pos, cell in cells.items():
            runs = self.runs_of(cell)
            if runs:
                want['runs'][pos] = runs
        return super().cells(cells)

    def runs_of(self, cell):
        if cell[0] != 't' or self.ver < 50:
            return None
        text, how = cell[1], cell[2]
        mode = how % 6
        if mode == 5 and text and (self.ver < 80 or len(text) < 300):
            return [self.run(text, how, i) for i in range(how // 6 * 2 + 1)]
        if self.ver >= 80 and mode == 1:
            return [self.run(text, how, i) for i in range((how // 6 + 1) * 3)]
        return None

    def xf_at(self, i):
        """The XF index for the i-th style, modulo."""
        return self.xf0 + i % len(self.spec['styles'])

    def before_cells(self, k):
        self.now = k
        want = self.want[k] = {'xf': {}, 'attr': {}, 'runs': {}, 'rows': {}, 'cols': {}}
        m = self.m['sheets'][k % 3]
        if m is None:
            return b''
        v = self.ver
        out = b''
        want.update(defcol=m['defcol'], std=None, gcw=(0,) * 256, defrow=(None, 0))
        if m['defrow'] is not None and v >= 30:
            out += rec(0x225, pack('<HH', *m['defrow']))
            want['defrow'] = (m['defrow'][1], m['defrow'][0])
        if m['defcol'] is not None:
            out += rec(0x55, pack('<H', m['defcol']))
        if m['std'] is not None and v >= 40:
            out += rec(0x99, pack('<H', m['std']))
            want['std'] = m['std']
        if m['gcw'] is not None and 40 <= v < 80:
            out += rec(0xAB, b'\x20\0' + pack('<8I', *m['gcw']))
            want['gcw'] = tuple(w >> i & 1 for w in m['gcw'] for i in range(32))
        out += self.colinfo(m['cols'], want)
        out += self.rowinfo(m['rows'], want)
        return out

    def colinfo(self, cols, want):
        out = b''
        for first, more, width, i, flags in cols:
            last = min(first + more, 256 if self.ver >= 30 else 255)
            if self.ver >= 30:
                xf = self.xf_at(i)
                out += rec(0x7D, pack('<HHHHH', first, last, width, xf, flags) + (b'\0\0' if i % 2 else b''))
                for c in range(first, min(last, 255) + 1):
                    want['cols'][c] = {'width': width, 'xf_index': xf, 'hidden': flags & 1, 'bit1_flag': flags >> 1 & 1,
                                       'outline_level': flags >> 8 & 7, 'collapsed': flags >> 12 & 1}
            else:
                out += rec(0x24, pack('<BBH', first, last, width))
                for c in range(first, last + 1):
                    want['cols'].setdefault(c, {})['width'] = width
                if self.ver == 21:
                    xf = self.xf_at(i)
                    stop = min(first + 3, 256)
                    out += rec(0x20, pack('<HH', first, stop) + bytes([xf, 0, 0]) * (stop - first) + b'\0\0')
                    for c in range(first, stop):
                        want['cols'].setdefault(c, {})['xf_index'] = xf
        return out

    def rowinfo(self, rows, want):
        out = b''
        for r, height, bits, i in rows:
            if self.ver >= 30:
                xf = self.xf_at(i)
                word = (bits & 0xFFF7) | (bits >> 16 & 3) << 28 | xf << 16
                out += rec(0x208, pack('<HHHHHHI', r, 0, 9, height, 0, 0, word))
                want['rows'][r] = {
                    'height': height & 0x7FFF, 'has_default_height': height >> 15, 'outline_level': word & 7,
                    'outline_group_starts_ends': word >> 4 & 1, 'hidden': word >> 5 & 1, 'height_mismatch': word >> 6 & 1,
                    'has_default_xf_index': word >> 7 & 1, 'xf_index': xf if word >> 7 & 1 else -1,
                    'additional_space_above': word >> 28 & 1, 'additional_space_below': word >> 29 & 1}
            elif self.ver == 21:
                xf = self.xf_at(i)
                has = bits & 1
                body = pack('<HHHHH', r, 0, 9, height, 0) + bytes([has]) + pack('<H', 0)
                body += (bytes([0, 0, 0]) + pack('<H', xf)) if bits & 2 else bytes([xf, 0, 0])
                if not has:
                    body = body[:13]
                out += rec(0x08, body)
                want['rows'][r] = {'height': height & 0x7FFF, 'has_default_height': height >> 15,
                                   'has_default_xf_index': has, 'xf_index': xf if has else -1}
        return out

    def after_cells(self, k):
        m = self.m['sheets'][k % 3]
        want = self.want[k]
        if m is None:
            return b''
        v = self.ver
        out = b''
        want.update(win=None, scl=None, pane=None, hbreaks=[], vbreaks=[], merged=[], rowlabels=[], collabels=[],
                    notes={}, links=[])
        win = m['win']
        if win is not None:
            flags, r, c, grid, m1, m2, rgb = win
            rgb3 = (rgb & 255, rgb >> 8 & 255, rgb >> 16 & 255)
            if v >= 80:
                out += rec(0x23E, pack('<HHHHHHHI', flags, r, c, grid, 0, m1, m2, 0))
                want['win'] = (flags & 0xFFF, r, c, grid, m1, m2, None)
            elif v >= 30:
                out += rec(0x23E, pack('<HHHI', flags, r, c, rgb))
                want['win'] = (flags & 0xFFF, r, c, None, 0, 0, rgb3)
            else:
                b = [flags >> i & 1 for i in range(6)]
                out += rec(0x3E, bytes(b[:5]) + pack('<HHBI', r, c, b[5], rgb))
                # the other options as when there is no record
                want['win'] = (flags & 0x3F | 0x80, r, c, None, 0, 0, rgb3)
        if m['scl'] is not None and v >= 40:
            num, den = m['scl']
            out += rec(0xA0, pack('<HH', num, den))
            pct = num * 100 // den if den else 0
            want['scl'] = pct if 10 <= pct <= 400 else 100
        if m['pane'] is not None:
            vert, horz, r, c, active = m['pane']
            out += rec(0x41, pack('<HHHHBB', vert, horz, r, c, active, 0))
            want['pane'] = (vert, horz, r, c, active)
        for what, code, top in (('hbreaks', 0x1B, 255), ('vbreaks', 0x1A, 65535)):
            if not m[what]:
                continue
            if v >= 80:
                out += rec(code, pack('<H', len(m[what])) + b''.join(pack('<HHH', *b) for b in m[what]))
                want[what] = [tuple(b) for b in m[what]]
            elif v >= 30:
                out += rec(code, pack('<H', len(m[what])) + b''.join(pack('<H', b[0]) for b in m[what]))
                want[what] = [(b[0], 0, top) for b in m[what]]
        if v >= 80:
            def ranges(spans):
                return [(r, r + dr + 1, c, min(c + dc, 255) + 1) for r, dr, c, dc in spans]

            def plist(rs):
                return pack('<H', len(rs)) + b''.join(pack('<HHHH', a, b - 1, c, d - 1) for a, b, c, d in rs)
            for part in m['merges']:
                rs = ranges(part)
                out += rec(0xE5, plist(rs))
                want['merged'] += rs
            want['merged'] += [(r, r + dr + 1, c, c + dc + 1) for r, c, dr, dc in self.all[k][1]['merge']]
            if m['rowlabels'] or m['collabels']:
                want['rowlabels'], want['collabels'] = ranges(m['rowlabels']), ranges(m['collabels'])
                out += rec(0x15F, plist(want['rowlabels']) + plist(want['collabels']))
            for h in m['links']:
                out += self.link(h, want)
        out += self.notes(m['notes'], want)
        return out

    def link(self, h, want):
        r, dr, c, dc = h['at']
        lr, lc = r + dr, min(c + dc, 255)

        def z(s):
            raw = s.encode('utf-16-le') + b'\0\0'
            return pack('<L', len(raw) // 2) + raw
        d = {'frowx': r, 'lrowx': lr, 'fcolx': c, 'lcolx': lc, 'type': h['kind'], 'desc': h['desc'],
             'target': h['target'], 'textmark': h['mark'], 'url_or_path': None, 'quicktip': h['tip']}
        options = 0
        body = b''
        if h['desc'] is not None:
            options |= 0x14 if h['site'] else 0x10
            body += z(h['desc'])
        if h['target'] is not None:
            options |= 0x80
            body += z(h['target'])
        if h['kind'] == 'url':
            options |= 3
            raw = h['path'].encode('utf-16-le') + b'\0\0'
            guff = b'\x79\x58\x81\xF4\x3B\x1D\x7F\x48\xAF\x2C\x82\x5D\xC4\x85\x27\x63\0\0\0\0\xA5\xAB\0\0' if h['guff'] else b''
            body += b'\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B' + pack('<L', len(raw) + len(guff))
            body += raw + guff
            d['url_or_path'] = h['path']
        elif h['kind'] == 'local file':
            options |= 1 if h['up'] else 3
            ansi = h['path'].encode('cp1252', 'replace') + b'\0'
            body += b'\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46'
            body += pack('<Hi', h['up'], len(ansi)) + ansi + b'\xFF\xFF\xAD\xDE' + b'\0' * 20
            if h['short']:
                body += pack('<i', 0)
                d['url_or_path'] = b'..\\' * h['up'] + ansi[:-1]
            else:
                raw = h['path'].encode('utf-16-le')
                body += pack('<iiH', len(raw) + 6, len(raw), 3) + raw
                d['url_or_path'] = h['path']
        elif h['kind'] == 'unc':
            options |= 0x103
            body += z(h['path'])
            d['url_or_path'] = h['path']
        elif d['textmark'] is None:         # a place in the workbook: it has a textmark
            d['textmark'] = 'Sheet1!A1'
        if d['textmark'] is not None:
            options |= 8
            body += z(d['textmark'])
        out = rec(0x1B8, pack('<HHHH', r, lr, c, lc) + b'\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
                  + b'\2\0\0\0' + pack('<i', options) + body + (b'A\0' if h['extra'] else b''))
        if h['tip'] is not None:
            out += rec(0x800, pack('<HHHHH', 0x800, r, lr, c, lc) + h['tip'].encode('utf-16-le') + b'\0\0')
        want['links'].append(d)
        return out

    def notes(self, notes, want):
        v = self.ver
        if v < 80:
            out = b''
            for n in notes:
                r, c = n['at']
                raw = self.text(n['text'] * (20 if n['pad'] else 1)).encode(self.enc)
                parts = [raw]
                if n['cut'] and len(raw) > 1:
                    k = n['cut'][0] * len(raw) // 10
                    parts = [raw[:k], raw[k:]]
                    if len(n['cut']) > 1:
                        h = len(parts[1]) // 2
                        parts[1:] = [parts[1][:h], parts[1][h:]]
                out += rec(0x1C, pack('<HHH', r, c, len(raw)) + parts[0])
                for p in parts[1:]:
                    if p:
                        out += rec(0x1C, pack('<HHH', 0xFFFF, 0, len(p)) + p)
                want['notes'][r, c] = {'rowx': r, 'colx': c, 'text': raw.decode(self.enc), 'author': '', 'show': 0,
                                       'row_hidden': 0, 'col_hidden': 0, 'rich_text_runlist': [(0, 0)]}
            return out
        objs, last = b'', b''
        for i, n in enumerate(notes):
            r, c = n['at']
            oid = i + 1
            cmo = pack('<HHHHH12x', 0x15, 18, 0x19, oid, 0x4011)
            objs += rec(0xEC, pack('<HHI', 0x000F, 0xF002, 0))      # a drawing
            objs += rec(0x5D, cmo + pack('<HH22x', 0x0D, 22) + (pack('<HH', 0, 0) if n['pad'] else b'')
                        + (b'\0\0\0\0' if n['wide'] else b''))
            text = n['text']
            units = text.encode('utf-16-le')
            size = len(units) // 2
            runs = sorted(tuple(x) for x in n['runs'] if x[0] < size) if size else []
            raw = runs + [(size, 0)] * n['end'] if size else []
            objs += rec(0x1B6, pack('<HHHHHHHH', 0x212, 0, 0, 0, 0, size, 8 * len(raw), 0) + b'\0\0')
            pieces, rest = [], units                # cut anywhere, in surrogate pairs too
            for cut in n['cut']:
                if len(rest) > 2 * cut:
                    pieces.append(rest[:2 * cut])
                    rest = rest[2 * cut:]
            if rest:
                pieces.append(rest)
            for p in pieces:
                objs += rec(0x3C, b'\1' + p if n['wide'] or any(p[1::2]) else b'\0' + p[::2])
            groups = [raw]
            if n['runcut'] and len(raw) > 1:
                k = min(n['runcut'], len(raw) - 1)
                groups = [raw[:k], raw[k:]]
            for g in groups:
                if g:
                    objs += rec(0x3C, b''.join(pack('<HH4x', *x) for x in g))
            author = n['author'][:60]
            last += rec(0x1C, pack('<HHHH', r, c, n['flags'], oid) + ustr(author, 2, n['wide'])
                        + (b'\0' if n['pad'] else b''))
            want['notes'][r, c] = {'rowx': r, 'colx': c, 'text': text, 'author': author, 'show': n['flags'] >> 1 & 1,
                                   'row_hidden': n['flags'] >> 7 & 1, 'col_hidden': n['flags'] >> 8 & 1,
                                   'rich_text_runlist': runs}
        return objs + last
