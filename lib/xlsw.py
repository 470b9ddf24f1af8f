"""Writes a workbook description (see sheetgen) as an xls file: BIFF 2 to 8, bare or in OLE2, in many variants."""
import struct

from hypothesis import strategies as st

import sheetgen as sg

pack = struct.pack
CODEPAGES = {1252: 'cp1252', 1251: 'cp1251', 1250: 'cp1250', 932: 'cp932', 437: 'cp437', 10000: 'mac_roman',
             32768: 'mac_roman', 32769: 'cp1252', 936: 'cp936', 850: 'cp850', 874: 'cp874', 949: 'cp949', 1258: 'cp1258',
             1361: 'johab', 10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2', 10079: 'mac_iceland',
             10081: 'mac_turkish', None: 'latin_1'}

options = {
    'cp': st.sampled_from([1252, 1252] + list(CODEPAGES)),
    'pad': st.sampled_from([0, 0, 1, 2]), 'frag': st.integers(0, 40), 'extra': st.integers(0, 3),
    'order': st.sampled_from([0, 0, 0, 0, 1, 2]), 'embed': st.sampled_from([0, 0, 1]),
    'dim': st.sampled_from(['right', 'right', 'zero', 'big', 'none']), 'num': st.integers(0, 5),
    'mul': st.booleans(), 'wide': st.booleans(), 'dupsst': st.booleans(), 'phys': st.integers(0, 2),
    'sst': st.lists(st.one_of(st.integers(24, 60), st.integers(24, 400)), min_size=1, max_size=5),
    'cutsst': st.sampled_from([0, 1, 1]),
    'big': st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(
        st.integers(1000, 9000), st.sampled_from(['ab', 'Ωé', 'x😀y', 'é']), st.integers(0, 5)).map(list)),
    'rich': st.integers(0, 3), 'streams': st.integers(0, 7), 'shuffle': st.integers(0, 10**6),
    'builtin': st.booleans(), 'tail': st.sampled_from([0, 0, 1]),
    'xfpad': st.sampled_from([0, 0, 0, 0, 0, 0, 2, 260, 1030])}      # XFs that no cell uses


def books(versions, **kw):
    return st.fixed_dictionaries({
        'sheets': st.lists(sg.sheet(**kw), min_size=1, max_size=3), 'styles': sg.styles,
        'date1904': st.sampled_from([0, 0, 1]),
        'x': st.fixed_dictionaries(dict(options, ver=st.sampled_from(versions),
                                        raw=st.sampled_from([0, 0, 0, 1])))})


@st.composite
def stringbooks(draw):
    """BIFF8 books of a column or two of text only, for the shared string table."""
    how = st.sampled_from([0, 1, 2, 6, 7, 8])
    txt = st.one_of(sg.texts, st.integers(1, 70).flatmap(
        lambda n: st.sampled_from(['abcdefg', 'éa', 'Ωb', 'aΩ', 'a😀', '😀']).map(lambda u: (u * n)[:n])))
    cell = st.tuples(st.just('t'), txt, how).map(list)
    cols = []
    for _ in range(draw(st.integers(1, 2))):
        v = draw(st.lists(cell, min_size=1, max_size=25))
        cols.append({'gap': 0, 'head': draw(cell), 'v': v})
    sheet = {'name': 'S', 'n': max(len(c['v']) for c in cols), 'cols': cols, 'r0': 0, 'c0': 0, 'extra': [],
             'merge': [], 'chart': False, 'state': 0}
    x = draw(st.fixed_dictionaries(dict(options, ver=st.just(80), raw=st.just(0), cutsst=st.just(1))))
    x['big'] = None
    return {'sheets': [sheet], 'styles': [['id', 0], ['id', 14]], 'date1904': 0, 'x': x}


@st.composite
def farbooks(draw, versions):
    ver = draw(st.sampled_from(versions))
    x = draw(st.fixed_dictionaries(dict(options, ver=st.just(ver), raw=st.just(0), big=st.none(), dim=st.just('right'),
                                        sst=st.just([8224]))))
    return {'sheets': [draw(sg.far_sheet(65535 if ver >= 80 else 16383, 255))], 'styles': draw(sg.styles),
            'date1904': 0, 'x': x}


def rec(code, data=b''):
    assert len(data) <= 8224, len(data)
    return pack('<HH', code, len(data)) + data


def ustr(text, lenlen, wide=False, rich=0, pho=0):
    """A BIFF8 unicode string."""
    flag = 0
    try:
        raw = text.encode('latin-1')
        if wide:
            raise UnicodeError
        n = len(raw)
    except UnicodeError:
        raw = text.encode('utf-16-le')
        flag, n = 1, len(raw) // 2
    flag |= (8 if rich else 0) | (4 if pho else 0)
    out = pack('<B' if lenlen == 1 else '<H', n) + bytes([flag])
    if rich:
        out += pack('<H', rich)
    if pho:
        out += pack('<i', pho)
    return out + raw + b'\x00\x00\x01\x00' * rich + b'\x01' * pho


def rk_int(v):
    return v == int(v) and -2**29 <= v < 2**29 and not (v == 0 and str(v)[0] == '-')


def rk_forms(v):
    """The RK encodings of v that give exactly v."""
    out = []
    if rk_int(v):
        out.append((int(v) << 2 | 2) & 0xFFFFFFFF)
    if abs(v) < 1e7:
        i = int(round(v * 100))
        if -2**29 <= i < 2**29 and i / 100.0 == v and str(i / 100.0)[0] == str(v)[0]:
            out.append((i << 2 | 3) & 0xFFFFFFFF)
    bits = struct.unpack('<Q', pack('<d', v))[0]
    if not bits & 0x3FFFFFFFF:
        out.append(bits >> 32)
    if abs(v) < 1e300:
        bits = struct.unpack('<Q', pack('<d', v * 100))[0]
        if not bits & 0x3FFFFFFFF and v * 100 / 100.0 == v and abs(v) > 1e-300:
            out.append(bits >> 32 | 1)
    return out


class Lcg(object):
    def __init__(self, seed):
        self.s = seed & 0x7FFFFFFF

    def next(self, n):
        self.s = (self.s * 1103515245 + 12345) & 0x7FFFFFFF
        return (self.s >> 8) % n

    def shuffled(self, items):
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = self.next(i + 1)
            items[i], items[j] = items[j], items[i]
        return items


class Writer(object):
    def __init__(self, spec):
        self.spec = spec
        self.x = x = spec['x']
        self.ver = x['ver']
        self.cp = x['cp'] if self.ver < 80 else None
        self.enc = CODEPAGES[self.cp]
        self.pad = x['xfpad'] if self.ver >= 30 else min(x['xfpad'], 20)
        self.datemode = spec['date1904']
        specs = [dict(s) for s in spec['sheets']]
        if self.ver < 45:
            specs = specs[:1]
        if self.ver < 50 or all(s['chart'] for s in specs):
            for s in specs[:1] if self.ver >= 50 else specs:
                s['chart'] = False
        for s in specs:
            if self.ver < 80:
                s['name'] = self.text(s['name']).strip() or 'x'
            # the oldest formats have a limited number of everything
        names = sg.unique_names(specs) if self.ver >= 45 else ['Sheet 1']
        self.all = list(zip(names, specs))
        self.sst, self.sstx = [], {}
        self.sheets = []
        self.bodies = []
        self.allcells = []
        for k, (name, s) in enumerate(self.all):
            cells = {}
            for pos, cell in sg.cells_of(s).items():
                cell = list(cell)
                if cell[0] == 't':
                    cell[1] = self.text(cell[1])
                cells[pos] = cell
            if k == 0 and x['big'] and self.ver >= 50:
                n, ch, how = x['big']
                if self.ver < 80:
                    n = min(n, 600)
                cells[0, 0] = ['t', self.text((ch * n)[:n]), how]
            self.allcells.append(cells)
            if not s['chart']:
                self.sheets.append(sg.Sheet(name, cells, s['merge'], merge_counts=False))
        self.blob = self.write()

    # -- strings
    def text(self, t):
        if self.ver >= 80:
            return t
        t = t[:60] if len(t) < 500 else t
        if self.ver < 30:
            t = t[:100]
        return t.encode(self.enc, 'replace').decode(self.enc)

    def bstr(self, t, lenlen):
        raw = t.encode(self.enc)
        return pack('<B' if lenlen == 1 else '<H', len(raw)) + raw

    def anystr(self, t, lenlen, wide=False):
        return ustr(t, lenlen, wide) if self.ver >= 80 else self.bstr(t, lenlen)

    def shared(self, text, how):
        key = (text, how) if not self.x['dupsst'] else (text, how, len(self.sst))
        if key not in self.sstx:
            self.sstx[key] = len(self.sst)
            self.sst.append((text, how))
            if self.x['rich'] == 1 and len(self.sst) < 6:
                self.sst.append(('unused', 0))
        return self.sstx[key]

    def sst_records(self):
        limits = self.x['sst'] if self.x['cutsst'] else [8224]
        out = [bytearray(pack('<ii', len(self.sst) + 3, len(self.sst)))]

        def room():
            return limits[(len(out) - 1) % len(limits)] - len(out[-1])

        def new():
            out.append(bytearray())

        for text, how in self.sst:
            rich = how % 6 == 1 and (how // 6 + 1) * 3 or 0
            pho = (how % 6 == 2 or how == 7) and 5 + 6 * (how // 6) * (20 if len(text) % 3 == 1 else 1) or 0
            units = text.encode('utf-16-le')
            n = len(units) // 2
            wide = bool(self.x['wide'])
            head = 3 + (2 if rich else 0) + (4 if pho else 0)
            if room() < head + 4:
                new()
            pos = 0

            def flag():
                return 1 if wide or any(units[2 * pos + 1::2]) else 0
            f = flag()
            out[-1] += pack('<HB', n, f | (8 if rich else 0) | (4 if pho else 0))
            if rich:
                out[-1] += pack('<H', rich)
            if pho:
                out[-1] += pack('<i', pho)
            while True:
                can = min(room() // (2 if f else 1), n - pos)
                seg = units[2 * pos:2 * (pos + can)]
                out[-1] += seg if f else seg[::2]
                pos += can
                if pos == n:
                    break
                new()
                f = flag()
                out[-1].append(f)
            for i in range(rich):
                if room() < 4:
                    new()
                out[-1] += pack('<HH', *self.run(text, how, i))
            while pho:
                if room() < 1:
                    new()
                take = min(room(), pho)
                out[-1] += b'\x07' * take
                pho -= take
        return b''.join(rec(0xFC if i == 0 else 0x3C, bytes(d)) for i, d in enumerate(out))

    def run(self, text, how, i):
        """The i-th formatting run of a text: (position, font)."""
        return i + how // 6, i * 3 + how + len(text) % 5

    # -- formats
    def style_table(self):
        """[(format key, code or None)] per style of the book."""
        out = []
        for i, (kind, v) in enumerate(self.spec['styles']):
            if self.ver >= 50:
                out.append((v, None) if kind == 'id' else (164 + self.pad + 3 * i, v))
            else:
                out.append((i, self.text(sg.builtin(v) if kind == 'id' else v)))
        return out

    def formats(self):
        out = b''
        if self.ver >= 50:
            if self.x['builtin']:
                for key in (5, 14, 20, 46):
                    out += rec(0x41E, pack('<H', key) + self.anystr(sg.BUILTIN.get(key, '"$"#,##0'),
                                                                   2 if self.ver >= 80 else 1))
            for key, code in self.style_table():
                if code is not None:
                    out += rec(0x41E, pack('<H', key) + self.anystr(code, 2 if self.ver >= 80 else 1))
        else:
            for key, code in self.style_table():
                if self.ver >= 40 and not (self.ver == 40 and self.x['shuffle'] % 5 == 2):
                    out += rec(0x41E, b'\0\0' + self.bstr(code, 1))
                else:
                    out += rec(0x1E, self.bstr(code, 1))
        return out

    def xf(self, key, style=False):
        font = 0
        typ = (0xFFF5 if style else 0x0001)
        if self.ver >= 80:
            return rec(0xE0, pack('<HHHBBBBIiH', font, key, typ, 0x20, 0, 0, 0xF4 if style else 0, 0, 0, 0x20C0))
        if self.ver >= 50:
            return rec(0xE0, pack('<HHHBBIi', font, key, typ, 0x20, 0xF4 if style else 0, 0x20C0, 0))
        if self.ver >= 40:
            return rec(0x443, pack('<BBHBBHI', font, key, typ, 0x20, 0xF4 if style else 0, 0xCE00, 0))
        if self.ver >= 30:
            return rec(0x243, pack('<BBBBHHI', font, key, 5 if style else 1, 0xF4 if style else 0,
                                   0xFFF0 if style else 0, 0xCE00, 0))
        return rec(0x43, pack('<BBBB', font, 0, key | 0x40, 0))

    def xfs(self):
        if self.ver == 20:
            return b''
        nstyle = 15 if self.ver >= 30 else 1
        out = b''.join(self.xf(0, True) for _ in range(nstyle)) + self.xf(0) * (1 + self.pad)
        self.xf0 = nstyle + 1 + self.pad
        return out + b''.join(self.xf(key) for key, code in self.style_table())

    def xfidx(self, cell):
        styles = self.spec['styles']
        k = cell[0]
        if k in 'nd':
            i = sg.style_of(styles, k, cell[2])
        else:
            i = cell[1 if k == 'z' else 2] % len(styles)
        return i

    # -- cells
    def addr(self, r, c, cell):
        i = self.xfidx(cell)
        if self.ver >= 30:
            return pack('<HHH', r, c, self.xf0 + i)
        if self.ver == 20:
            return pack('<HH', r, c) + bytes([0x40, i, 0])
        xf = self.xf0 + i
        if self.x['num'] % 2:       # by an IXFE record
            self.ixfe = xf
            return pack('<HH', r, c) + bytes([0x3F, 0, 0])
        return pack('<HH', r, c) + bytes([xf, 0, 0])

    def formula(self, r, c, cell, result, after=b''):
        a = self.addr(r, c, cell)
        toks = b'\x1e\x05\x00'
        if self.ver >= 50:
            body = a + result + pack('<HIH', 0, 0, len(toks)) + toks
            code = 0x06
        elif self.ver >= 30:
            body = a + result + pack('<HH', 0, len(toks)) + toks
            code = 0x406 if self.ver >= 40 else 0x206
        else:
            body = a + result + pack('<BB', 0, len(toks)) + toks
            code = 0x06
        return rec(code, body) + after

    def string(self, text, how):
        """The STRING record(s) of a formula."""
        if self.ver < 30:
            return rec(0x07, self.bstr(text, 1))
        if self.ver < 80:
            return rec(0x207, self.bstr(text, 2))
        whole = ustr(text, 2, how % 2)
        limit = 8224 if how % 4 < 2 else 9
        if len(whole) <= limit or len(text) > 300 and limit == 9 and len(whole) <= 8224:
            return rec(0x207, whole)
        units = text.encode('utf-16-le')
        out = b''
        code = 0x207
        head = pack('<H', len(units) // 2)
        while units:                                # cut anywhere, in surrogate pairs too
            space = limit - len(head) - 1
            part = units[:2 * space]
            flag = 1 if how % 2 or any(part[1::2]) else 0
            if flag:
                part = units[:space // 2 * 2]
            out += rec(code, head + bytes([flag]) + (part if flag else part[::2]))
            units = units[len(part):]
            code, head = 0x3C, b''
        return out

    def cell(self, r, c, cell):
        k = cell[0]
        b2 = self.ver < 30
        if k == 'z':
            return rec(0x01 if b2 else 0x201, self.addr(r, c, cell))
        if k in 'nd':
            v, how = float(cell[1]), cell[2]
            if how % 4 == 3 and self.ver != 20:
                after = b''
                if how == 7 and self.ver >= 50:
                    after = rec(0x4BC, pack('<HHBBBBH', r, r, c, c, 0, 1, 3) + b'\x1e\x05\x00')
                elif how == 7 and self.ver >= 30:
                    after = rec(0x221, pack('<HHBBBBH', r, r, c, c, 0, 0, 3) + b'\x1e\x05\x00')
                elif how == 7:
                    after = rec(0x21, pack('<HHBBBB', r, r, c, c, 0, 3) + b'\x1e\x05\x00')
                return self.formula(r, c, cell, pack('<d', v), after)
            if b2:
                if v == int(v) and 0 <= v <= 65535 and how % 2 == 0 and str(v)[0] != '-':
                    return rec(0x02, self.addr(r, c, cell) + pack('<H', int(v)))
                return rec(0x03, self.addr(r, c, cell) + pack('<d', v))
            forms = rk_forms(v)
            if forms and how % 4 != 2:
                return rec(0x27E, self.addr(r, c, cell) + pack('<I', forms[(how + self.x['num']) % len(forms)]))
            tail = b'\0\0' if self.x['num'] == 5 else b''
            return rec(0x203, self.addr(r, c, cell) + pack('<d', v) + tail)
        if k == 't':
            text, how = cell[1], cell[2]
            mode = how % 6
            if mode == 3 and self.ver != 20 or (mode == 5 and not text and self.ver != 20):
                if not text and how > 5:
                    return self.formula(r, c, cell, b'\x03\0\0\0\0\0\xff\xff')
                mid = b''
                if how == 9 and self.ver >= 50 and r % 3 == 2:
                    mid = rec(0x236, pack('<HHBBBBHHHH', r, r, c, c, 0, 0, 0, 0, 0, 0))
                elif how == 9 and self.ver >= 50:
                    mid = rec(0x4BC, pack('<HHBBBBH', r, r, c, c, 0, 1, 3) + b'\x1e\x05\x00')
                elif how == 9 and self.ver < 30:        # a table of results, as of all in BIFF 2
                    mid = rec((0x36, 0x37)[r % 2], pack('<HHBBHHHHH', r, r, c, c, 0, 0, 0, 0, 0)[:(12, 16)[r % 2]])
                elif how == 3 and self.ver < 50 and r % 2:
                    if self.ver < 30:
                        mid = rec(0x21, pack('<HHBBBB', r, r, c, c, 0, 3) + b'\x1e\x05\x00')
                    else:
                        mid = rec(0x221, pack('<HHBBBBH', r, r, c, c, 0, 0, 3) + b'\x1e\x05\x00')
                elif how == 9 and r % 2 and self.ver < 50:
                    mid = rec(0x236, pack('<HHBBBBHHHH', r, r, c, c, 0, 0, 0, 0, 0, 0))
                elif how == 3 and self.ver >= 50 and r % 2:
                    mid = rec(0x221, pack('<HHBBBBIH', r, r, c, c, 0, 0, 0, 3) + b'\x1e\x05\x00')
                return self.formula(r, c, cell, b'\0\0\0\0\0\0\xff\xff', mid + self.string(text, how + r))
            if b2:
                return rec(0x04, self.addr(r, c, cell) + self.bstr(text, 1))
            if mode == 4 or self.ver < 50 or (self.ver < 80 and mode < 4):
                if self.ver < 80 or len(text) < 300:
                    return rec(0x204, self.addr(r, c, cell) + self.anystr(text, 2, how > 5))
            if mode == 5 and (self.ver < 80 or len(text) < 300):
                runs = how // 6 * 2 + 1
                body = self.addr(r, c, cell) + self.anystr(text, 2, how > 5)
                if self.ver >= 80:
                    body += pack('<H', runs) + b''.join(pack('<HH', *self.run(text, how, i)) for i in range(runs))
                else:
                    body += pack('<B', runs) + b''.join(pack('<BB', *self.run(text, how, i)) for i in range(runs))
                return rec(0xD6, body)
            return rec(0xFD, self.addr(r, c, cell) + pack('<i', self.shared(text, how)))
        err = int(k == 'e')
        v, how = cell[1], cell[2]
        if how % 2 and self.ver != 20:
            return self.formula(r, c, cell, bytes([1 + err, 0, v, 0, 0, 0, 0xFF, 0xFF]))
        tail = b'\0' if self.x['num'] == 5 and not b2 else b''
        return rec(0x05 if b2 else 0x205, self.addr(r, c, cell) + bytes([v, err]) + tail)

    def cells(self, cells):
        byrow = {}
        for (r, c), cell in cells.items():
            byrow.setdefault(r, []).append((c, cell))
        rows = sorted(byrow)
        if self.x['order'] == 1:
            rows.reverse()
        out = []
        for r in rows:
            row = sorted(byrow[r], key=lambda t: t[0])
            if self.x['order'] == 2:
                row.reverse()
            if self.x['extra'] & 1 and self.ver >= 30:
                out.append(rec(0x208, pack('<HHHHHHI', r, 0, 9, 0xFF, 0, 0, 0x100)))
            i = 0
            while i < len(row):
                c, cell = row[i]
                j = i
                if self.x['mul'] and self.ver >= 50 and self.x['order'] != 2:
                    def mulable(t):
                        cl = t[1]
                        return cl[0] in 'nd' and cl[2] % 4 != 3 and rk_forms(float(cl[1]))
                    while j < len(row) and row[j][0] == c + j - i and mulable(row[j]):
                        j += 1
                    if j - i > 1:
                        body = pack('<HH', r, c)
                        for cc, cl in row[i:j]:
                            forms = rk_forms(float(cl[1]))
                            body += pack('<HI', self.xf0 + self.xfidx(cl), forms[cl[2] % len(forms)])
                        out.append(rec(0xBD, body + pack('<H', row[j - 1][0])))
                        i = j
                        continue
                    j = i
                    while j < len(row) and row[j][0] == c + j - i and row[j][1][0] == 'z':
                        j += 1
                    if j - i > 1:
                        out.append(rec(0xBE, pack('<HH', r, c) + b''.join(
                            pack('<H', self.xf0 + self.xfidx(cl)) for cc, cl in row[i:j])
                            + pack('<H', row[j - 1][0])))
                        i = j
                        continue
                self.ixfe = None
                blob = self.cell(r, c, cell)
                if self.ixfe is not None:
                    out.append(rec(0x44, pack('<H', self.ixfe)))
                out.append(blob)
                i += 1
        return b''.join(out)

    def bof(self, typ):
        v = self.ver
        if v >= 80:
            return rec(0x809, pack('<HHHHII', 0x600, typ, 0x1D8A, 1997, 0x41, 0x606))
        if v == 70:
            build, year = ((0x4DBB, 1996), (0x4DBB, 1994), (3217, 2003), (3322, 1997))[self.x['shuffle'] % 4]
            return rec(0x809, pack('<HHHH', 0x500, typ, build, year))
        if v == 50:
            build, year = ((2412, 1993), (3218, 1996), (3321, 1997), (2412, 1994), (0x4DBB, 1993))[self.x['shuffle'] % 5]
            return rec(0x809, pack('<HHHH', 0x500, typ, build, year))
        if v >= 40:
            return rec(0x409, pack('<HHH', 0x400, typ, 0))
        if v >= 30:
            return rec(0x209, pack('<HHH', 0x300, typ, 0))
        return rec(0x09, pack('<HH', 0x200 if self.x['num'] % 2 else 7, typ))

    def fonts(self):
        if self.ver >= 50:
            return rec(0x31, pack('<HHHHHBBBB', 200, 0, 0x7FFF, 400, 0, 0, 2, 0, 0) + self.anystr('Arial', 1)) * 4
        if self.x['extra']:
            return rec(0x31 if self.ver < 30 else 0x231, pack('<HH', 200, 0)
                       + (b'' if self.ver < 30 else b'\xff\x7f') + self.bstr('Arial', 1))
        return b''

    def styles_and_palette(self):
        return rec(0x293, pack('<HBB', 0x8000, 0, 0xFF)) if self.x['extra'] & 2 and self.ver >= 50 else b''

    def origin(self):
        """Who saved the file, in what code page, where (what is told of it in x['facts'] is for C33 only)."""
        x, out = self.x, []
        f = x.get('facts')
        user, country, first = 'me' if x['extra'] & 1 else None, [1, 46] if x['extra'] & 2 else None, True
        if self.ver < 50:
            user = country = None
        cp = self.cp if self.ver < 80 else None if x['cp'] is None else 1200
        if f:
            user, country, first = f['user'], f['country'], f['first']
            cp = cp if f['cp'] is None else f['cp']
        if cp is not None:
            out.append(rec(0x42, pack('<H', cp)))
        if user is not None:
            self.user = user = self.text(user)
            name = ustr(user, 2, f and f['wide']) if self.ver >= 80 else self.bstr(user, 1)
            if not f or f['fill']:
                name += b' ' * max(0, 112 - len(name))
            out.insert(0 if first else len(out), rec(0x5C, name))
        if country is not None:
            out.append(rec(0x8C, pack('<HH', *country)))
        return b''.join(out)

    def names(self):
        """Defined names: after the BOUNDSHEET records, but before them in BIFF 5 and 7."""
        return b''

    def before_cells(self, k):
        return b''

    def after_cells(self, k):
        return b''

    def filepass(self):
        """The record that tells the rest is encrypted (C29 only)."""
        how = self.x.get('filepass')
        if how is None:
            return b''
        if self.ver < 80 or how == 0:
            return rec(0x2F, (b'' if self.ver < 80 else b'\0\0') + b'\x34\x12\x78\x56')
        return rec(0x2F, pack('<HHH', 1, how, how) + bytes(range(48)))

    def sheet_body(self, spec, cells, k=0):
        x = self.x
        out = self.bof(0x10)
        if self.ver <= 45:
            if self.ver != 45:
                out += self.filepass()
            if self.ver != 45:
                out += self.origin()
            out += self.fonts()
            if self.ver < 45 or x['num'] % 2:
                out += rec(0x22, pack('<H', self.datemode))
            if x['extra'] & 1 and self.ver >= 30:
                out += rec(0x56, pack('<H', 3))
            out += self.formats() + self.xfs() + self.styles_and_palette()
        elif x['extra'] & 1:
            out += rec(0x20B, pack('<IIIII', 0, 0, 9, 0, 0)) + rec(0x55, pack('<H', 8))
        nr = max([r + 1 for r, c in cells] + [0])
        nc = max([c + 1 for r, c in cells] + [0])
        if x['dim'] != 'none' or self.ver < 50:
            nr, nc = {'zero': (0, 0), 'big': (nr + 30, min(256, nc + 9))}.get(x['dim'], (nr, nc))
            dim = pack('<IIHHH', 0, nr, 0, nc, 0) if self.ver >= 80 else pack('<HHHHH', 0, nr, 0, nc, 0)
            out += rec(0x200 if self.ver >= 30 else 0x00, dim if self.ver >= 30 else dim[:8])
        if x['extra'] & 2 and self.ver >= 50:
            out += rec(0x7D, pack('<HHHHHH', 0, 1, 0x900, 15, 0, 0))
            out += rec(0x0863, b'future record')
        out += self.before_cells(k) + self.cells(cells) + self.after_cells(k)
        if x['embed'] and self.ver >= 50:
            # an embedded chart: its cached values are NUMBER and LABEL records too
            out += self.bof(0x20) + rec(0x203, pack('<HHHd', 0, 0, 15, 77.5))
            out += rec(0x1002, b'\0' * 16) + rec(0x203, pack('<HHHd', 200, 30, 15, 78.5)) + rec(0x0A)
        if self.ver >= 50 and x['extra']:
            out += rec(0x23E, pack('<HHHIHHI', 0x6B6, 0, 0, 64, 0, 0, 0) if self.ver >= 80
                       else pack('<HHHI', 0x6B6, 0, 0, 0))
        if spec['merge'] and self.ver >= 80:
            out += rec(0xE5, pack('<H', len(spec['merge'])) + b''.join(
                pack('<HHHH', r, r + dr, c, c + dc) for r, c, dr, dc in spec['merge']))
        return out + rec(0x0A)

    def write(self):
        x = self.x
        if self.ver < 45:
            stream = self.sheet_body(self.all[0][1], self.allcells[0])
            return stream + (b'\0' * 9 if x['tail'] else b'')
        if self.ver == 45:
            return self.write_4w()
        self.xfs()
        bodies = []
        for k, ((name, spec), cells) in enumerate(zip(self.all, self.allcells)):
            if spec['chart']:
                bodies.append(self.bof(0x20) + rec(0x203, pack('<HHHd', 0, 0, 15, 99.0)) + rec(0x0A))
            else:
                bodies.append(self.sheet_body(spec, cells, k))
        head = self.bof(5) + self.filepass()
        head += self.origin()
        if x['extra'] & 2:
            head += rec(0x161, b'\0\0')
        if self.datemode or x['num'] % 2:
            head += rec(0x22, pack('<H', self.datemode))
        head += self.fonts() + self.formats() + self.xfs() + self.styles_and_palette()
        if x['num'] == 1:
            head += rec(0x18, pack('<HBBHHH4B', 0, 0, 4, 3, 0, 0, 0, 0, 0, 0)
                        + (b'\0' if self.ver >= 80 else b'') + b'area' + b'\x1e\x05\x00')
        tail = rec(0x0A)
        if self.ver >= 80:
            tail = self.names() + self.sst_records() + tail
        else:
            head += self.names()
        bounds = []
        for name, spec in self.all:
            bounds.append((spec['state'], 2 if spec['chart'] else 0, self.anystr(name, 1)))
        size = len(head) + sum(10 + len(n) for _, _, n in bounds) + len(tail)
        order = list(range(len(bodies)))
        if x['phys'] == 1:
            order.reverse()
        elif x['phys'] == 2:
            order = order[1:] + order[:1]
        where = {}
        stream = b''
        for i in order:
            where[i] = size + len(stream)
            stream += bodies[i]
        for i, (state, typ, n) in enumerate(bounds):
            head += rec(0x85, pack('<iBB', where[i], state, typ) + n)
        stream = head + tail + stream
        if x['raw']:
            return stream + (b'\0' * 11 if x['tail'] else b'')
        return self.ole(stream)

    def write_4w(self):
        head = self.bof(0x100) + self.filepass() + self.origin()
        if self.datemode or self.x['num'] % 2:
            head += rec(0x22, pack('<H', self.datemode))
        head += rec(0x8E, pack('<i', 0))
        for name, spec in self.all:
            head += rec(0x85, self.bstr(name, 1))
        for k, ((name, spec), cells) in enumerate(zip(self.all, self.allcells)):
            body = self.sheet_body(spec, cells, k)
            head += rec(0x8F, pack('<i', len(body)) + self.bstr(name, 1)) + body
        return head + rec(0x0A)

    # -- the compound document
    def ole(self, stream):
        x = self.x
        rnd = Lcg(x['shuffle'])
        if x['pad'] == 1 and len(stream) < 4096:
            stream += b'\0' * (4096 - len(stream))
        elif x['pad'] == 2:
            stream += b'\0' * (-len(stream) % 512)
        self.stream = stream
        streams = [(x.get('stream') or ('Workbook' if self.ver >= 80 else 'Book'), stream, 0)]
        if x['streams'] & 1:
            streams.append(('\x05SummaryInformation', b'S' * (200 + rnd.next(300)), 0))
        if x['streams'] & 2:
            streams.append(('\x05DocumentSummaryInformation', b'D' * 4096, 0))
        if x['streams'] & 4:        # an embedded object with a workbook of its own
            streams.append(('MBD0001', None, 0))
            streams.append(('Workbook', self.bof(5) + rec(0x0A) + b'\0' * rnd.next(5000), 1))
            streams.append(('Empty', b'', 1))
        frag = x['frag']
        if x['shuffle'] % 10 == 3:          # many streams; the directory ids exceed a byte
            streams += [('Obj%d' % i, b'o' * rnd.next(70), 0) for i in range(230 + rnd.next(60))]
            if x['shuffle'] % 20 == 3:
                streams.append(streams.pop(0))
        elif frag % 3 == 2:                   # the workbook anywhere in the directory
            streams = rnd.shuffled(streams)
        mini, minifat = b'', []
        chains = []                     # (kind, payload) to lay out in sectors
        entries = []
        for name, data, parent in streams:
            if data is None:
                entries.append([name, 1, parent, -2, 0])
            elif not data:
                entries.append([name, 2, parent, -2, 0])
            elif len(data) < 4096:
                n = -(-len(data) // 64)
                entries.append([name, 2, parent, ('mini', data, n), len(data)])
            else:
                chains.append(data)
                entries.append([name, 2, parent, ('big', len(chains) - 1), len(data)])
        # mini sectors: shuffled between the small streams
        want = []
        for e in entries:
            if isinstance(e[3], tuple) and e[3][0] == 'mini':
                want.append((e, e[3][1], e[3][2]))
        total = sum(n for _, _, n in want)
        gaps = rnd.next(3) if frag % 2 else 0
        slots = list(range(total + gaps))
        if frag % 4 in (1, 3):
            slots = rnd.shuffled(slots)
        if want:
            nslots = len(slots)
            sectors = [b'\xEE' * 64] * nslots
            minifat = [-1] * nslots
            k = 0
            for e, data, n in want:
                mine = slots[k:k + n]
                k += n
                for i, sid in enumerate(mine):
                    sectors[sid] = (data[64 * i:64 * i + 64] + b'\0' * 64)[:64]
                    minifat[sid] = mine[i + 1] if i + 1 < n else -2
                e[3] = mine[0]
            mini = b''.join(sectors)
        nch = len(chains)
        if mini:
            chains.append(mini)
        minifat += [-1] * (-len(minifat) % 128)
        if minifat:
            chains.append(pack('<%di' % len(minifat), *minifat))
        ndir = 1 + len(entries)
        dirsecs = -(-ndir // 4)
        chains.append(b'\0' * (dirsecs * 512))
        counts = [-(-len(c) // 512) for c in chains]
        used = sum(counts)
        free = rnd.next(4) if frag % 2 else 0
        junk = 14500 if frag == 40 and x['shuffle'] % 6 == 0 else 0       # more than 109 SAT sectors
        base = used + free + junk
        nsat = nx = 0
        while True:
            tot = base + nsat + nx
            need = -(-tot // 128)
            needx = max(0, -(-(need - 109) // 127))
            if (need, needx) == (nsat, nx):
                break
            nsat, nx = need, needx
        tot = base + nsat + nx
        slots = list(range(tot))
        if frag % 5 in (1, 2):
            slots = rnd.shuffled(slots) if tot < 4000 else slots[::-1]
        elif frag % 5 == 3:
            slots = slots[nsat:] + slots[:nsat]
        elif frag % 5 == 4 and tot > 3:
            slots[0], slots[2] = slots[2], slots[0]
        fat = [-1] * (nsat * 128)
        sectors = [b'\xDD' * 512] * tot
        k = 0
        starts = []

        def take(n):
            nonlocal k
            got = slots[k:k + n]
            k += n
            return got

        def chain(got):
            for i, s in enumerate(got):
                fat[s] = got[i + 1] if i + 1 < len(got) else -2
            starts.append(got[0] if got else -2)
        satsecs = take(nsat) if frag % 2 else None
        layouts = []
        for n in counts:
            got = take(n)
            layouts.append(got)
            chain(got)
        if satsecs is None:
            satsecs = take(nsat)
        msx = take(nx)
        for s in satsecs:
            fat[s] = -3
        for s in msx:
            fat[s] = -4
        # directory
        for e in entries:
            if isinstance(e[3], tuple):
                e[3] = starts[e[3][1]]
        kids = {}
        for i, e in enumerate(entries):
            kids.setdefault(e[2], []).append(i + 1)
        stor = [i + 1 for i, e in enumerate(entries) if e[1] == 1]
        child = {}
        links = {}
        for parent, ids in kids.items():
            owner = 0 if parent == 0 else stor[0]
            ids = rnd.shuffled(ids)
            mid = len(ids) // 2 if frag % 2 == 0 else 0
            child[owner] = self.tree(ids, mid, links, frag % 2 == 0)
        minicnt = nch if mini else None
        root = self.direntry('Root Entry', 5, (-1, -1), child.get(0, -1),
                             starts[minicnt] if mini else -2, len(mini))
        dirdata = root
        for i, e in enumerate(entries):
            dirdata += self.direntry(e[0], e[1], links.get(i + 1, (-1, -1)), child.get(i + 1, -1), e[3], e[4])
        dirdata += self.direntry('', 0, (-1, -1), -1, 0, 0) * (dirsecs * 4 - ndir)
        chains[-1] = dirdata
        for data, got in zip(chains, layouts):
            for i, s in enumerate(got):
                part = data[512 * i:512 * i + 512]
                sectors[s] = part + b'\0' * (512 - len(part))
        for i, s in enumerate(satsecs):
            sectors[s] = pack('<128i', *fat[128 * i:128 * i + 128])
        msat = satsecs[:109] + [-1] * (109 - len(satsecs[:109]))
        rest = satsecs[109:]
        for i, s in enumerate(msx):
            part = rest[127 * i:127 * i + 127]
            part += [-1] * (127 - len(part))
            sectors[s] = pack('<128i', *(part + [msx[i + 1] if i + 1 < len(msx) else -2]))
        ssat = nch + 1 if mini else None
        header = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1' + b'\0' * 16
        header += pack('<HHHHH', 0x3E, 3, 0xFFFE, 9, 6) + b'\0' * 10
        header += pack('<iiiiiiii', nsat, starts[-1], 0, 4096,
                       starts[ssat] if mini else -2, counts[ssat] if mini else 0,
                       msx[0] if msx else -2, len(msx))
        header += pack('<109i', *msat)
        assert len(header) == 512
        return header + b''.join(sectors)

    def tree(self, ids, mid, links, balanced):
        """Link the siblings; returns the id of the node on top."""
        if not ids:
            return -1
        mid = len(ids) // 2 if balanced else 0
        left = self.tree(ids[:mid], 0, links, balanced)
        right = self.tree(ids[mid + 1:], 0, links, balanced)
        links[ids[mid]] = (left, right)
        return ids[mid]

    def direntry(self, name, typ, lr, child, first, size):
        raw = name.encode('utf-16-le')
        n = len(raw) + 2 if name else 0
        return (raw + b'\0' * (64 - len(raw)) + pack('<HBBiii', n, typ, 1, lr[0], lr[1], child)
                + b'\0' * 36 + pack('<iII', first, size, 0))
