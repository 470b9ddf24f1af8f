"""Defined names with formulas: expression trees, their tokens in BIFF 5 to 8, their value, and a parser of their text.

A tree is a list: ['n', number] ['i', 0..65535] ['s', text] ['b', 0/1] ['e', code] ['ref', where, class, row, col, rels]
['area', where, class, [r1, c1, r2, c2], rels] ['bin', op, a, b] ['un', op, a] ['%', a] ['fn', i, [args]] ['name', k]
['paren', a] ['sum', a] ['arr'] ['err', i] ['ext', i] ['refop', ' ' or ',' or ':', a, b, mem]; ['miss'] only as argument.
'where' is [kind, first, last] with kind 'in', 'deleted', 'ext'.
"""
import re

from hypothesis import strategies as st

import sheetgen as sg
import xlsw
from xlsw import pack, rec, ustr

SYM = {0x03: '+', 0x04: '-', 0x05: '*', 0x06: '/', 0x07: '^', 0x08: '&', 0x09: '<', 0x0A: '<=', 0x0B: '=', 0x0C: '>=',
       0x0D: '>', 0x0E: '<>'}
PREC = {'<': 1, '<=': 1, '=': 1, '>=': 1, '>': 1, '<>': 1, '&': 2, '+': 3, '-': 3, '*': 4, '/': 4, '^': 5}
# number, name, fewest and most arguments, whether the number of arguments is stored; from the format's documentation
FUNCS = [(1, 'IF', 2, 3, 1), (100, 'CHOOSE', 2, 29, 1), (4, 'SUM', 1, 30, 1), (5, 'AVERAGE', 1, 30, 1), (0, 'COUNT', 1, 30, 1),
         (169, 'COUNTA', 1, 30, 1), (6, 'MIN', 1, 30, 1), (7, 'MAX', 1, 30, 1), (8, 'ROW', 0, 1, 1), (9, 'COLUMN', 0, 1, 1),
         (8, 'ROW', 0, 0, 1), (9, 'COLUMN', 0, 0, 1), (10, 'NA', 0, 0, 0), (19, 'PI', 0, 0, 0), (34, 'TRUE', 0, 0, 0),
         (35, 'FALSE', 0, 0, 0), (63, 'RAND', 0, 0, 0), (74, 'NOW', 0, 0, 0), (221, 'TODAY', 0, 0, 0), (24, 'ABS', 1, 1, 0),
         (27, 'ROUND', 2, 2, 0), (38, 'NOT', 1, 1, 0), (39, 'MOD', 2, 2, 0), (32, 'LEN', 1, 1, 0), (76, 'ROWS', 1, 1, 0),
         (77, 'COLUMNS', 1, 1, 0), (65, 'DATE', 3, 3, 0), (31, 'MID', 3, 3, 0), (78, 'OFFSET', 3, 5, 1),
         (29, 'INDEX', 2, 4, 1), (64, 'MATCH', 2, 3, 1), (102, 'VLOOKUP', 3, 4, 1), (148, 'INDIRECT', 1, 2, 1),
         (36, 'AND', 1, 30, 1), (37, 'OR', 1, 30, 1), (336, 'CONCATENATE', 1, 30, 1), (346, 'COUNTIF', 2, 2, 0),
         (345, 'SUMIF', 2, 3, 1), (115, 'LEFT', 1, 2, 1), (3, 'ISERROR', 1, 1, 0), (129, 'ISBLANK', 1, 1, 0),
         (48, 'TEXT', 2, 2, 0), (33, 'VALUE', 1, 1, 0), (109, 'LOG', 1, 2, 1), (25, 'INT', 1, 1, 0)]
NUM, STR, BOOL, ERR, REF, REL, UNK, MISS = 2, 1, 3, 4, -1, -2, 0, 5
BUILTIN = ['Consolidate_Area', 'Auto_Open', 'Auto_Close', 'Extract', 'Database', 'Criteria', 'Print_Area', 'Print_Titles',
           'Recorder', 'Data_Form', 'Auto_Activate', 'Auto_Deactivate', 'Sheet_Title', '_FilterDatabase']
SHEETS = ['Data', 'My sheet', "It's", 'S2', 'Ünï', "x'y'z", 'Chart']

posnum = st.one_of(st.integers(0, 20).map(float), st.sampled_from([0.5, 0.1, 1e300, 1e-300, 5e-324, 123456.75, 1e15, 1e16, 1e22]),
                   st.floats(0, 1e308))
where = st.tuples(st.sampled_from(['in'] * 8 + ['deleted', 'ext']), st.integers(0, 3), st.sampled_from([0, 0, 0, 0, 1, 2])).map(list)
cls = st.sampled_from([1, 1, 1, 1, 2, 3])
nrow = st.one_of(st.integers(0, 20), st.integers(0, 20), st.integers(0, 65535),
                 st.sampled_from([8191, 8192, 16383, 32767, 32768, 65535]))
ncol = st.one_of(st.integers(0, 20), st.integers(0, 20), st.integers(0, 255), st.sampled_from([127, 128, 255]))
norel = st.just([0, 0, 0, 0])
rels = st.one_of(norel, norel, norel, st.lists(st.integers(0, 1), min_size=4, max_size=4))
strs = st.one_of(st.sampled_from(['', 'a', 'A', 'abc', '5', '-2.5', 'say "hi"', 'é', 'Ω', '1e5', ' 7 ', '+', '#N/A']), sg.texts.map(
    lambda s: s[:20]))
refs = st.one_of(st.tuples(st.just('ref'), where, cls, nrow, ncol, rels).map(list),
                 st.tuples(st.just('area'), where, cls, st.tuples(nrow, ncol, nrow, ncol).map(list), rels).map(list))
leaves = st.one_of(
    st.tuples(st.just('n'), posnum).map(list), st.tuples(st.just('i'), st.integers(0, 65535)).map(list),
    st.tuples(st.just('i'), st.integers(0, 3)).map(list),
    st.tuples(st.just('s'), strs).map(list), st.tuples(st.just('b'), st.integers(0, 1)).map(list),
    st.tuples(st.just('e'), st.sampled_from(sorted(sg.ERRORS))).map(list), refs, refs,
    st.tuples(st.just('name'), st.integers(0, 9)).map(list), st.tuples(st.just('name'), st.integers(0, 9)).map(list),
    st.just(['arr']), st.tuples(st.just('err'), st.integers(0, 3)).map(list), st.tuples(st.just('ext'), st.integers(0, 1)).map(list))


def grow(kid):
    arg = st.one_of(kid, kid, st.just(['miss']))
    return st.one_of(
        st.tuples(st.just('bin'), st.sampled_from(sorted(SYM)), kid, kid).map(list),
        st.tuples(st.just('bin'), st.sampled_from([3, 4, 5, 6, 7]), kid, kid).map(list),
        st.tuples(st.just('un'), st.sampled_from([0x12, 0x13]), kid).map(list),
        st.tuples(st.just('%'), kid).map(list), st.tuples(st.just('paren'), kid).map(list),
        st.tuples(st.just('sum'), kid).map(list),
        st.tuples(st.just('fn'), st.integers(0, len(FUNCS) - 1), st.lists(arg, min_size=1, max_size=4)).map(list),
        st.tuples(st.just('fn'), st.sampled_from([0, 1]), st.lists(arg, min_size=1, max_size=4)).map(list),
        st.tuples(st.just('refop'), st.sampled_from([' ', ',', ':']), refs, refs, st.integers(0, 1)).map(list),
        st.tuples(st.just('refop'), st.sampled_from([' ', ',', ':']), kid, kid, st.integers(0, 1)).map(list))


consts = st.recursive(
    st.one_of(st.tuples(st.just('i'), st.integers(0, 9)).map(list), st.tuples(st.just('n'), posnum).map(list),
              st.tuples(st.just('s'), strs).map(list)),
    lambda kid: st.one_of(st.tuples(st.just('bin'), st.sampled_from(sorted(SYM)), kid, kid).map(list),
                          st.tuples(st.just('un'), st.sampled_from([0x12, 0x13]), kid).map(list),
                          st.tuples(st.just('%'), kid).map(list)), max_leaves=4)
def pairs(kid):
    return st.tuples(st.just('refop'), st.sampled_from([' ', ',', ':']), kid, kid, st.integers(0, 1)).map(list)


atoms = st.one_of(refs, refs, refs, st.tuples(st.just('name'), st.integers(0, 9)).map(list),
                  st.tuples(st.just('err'), st.integers(0, 3)).map(list))
joined = st.one_of(pairs(atoms), pairs(refs), pairs(st.one_of(pairs(atoms), st.tuples(st.just('paren'), pairs(atoms)).map(list), atoms)))
two = grow(leaves)
trees = st.one_of(leaves, refs, refs, consts, joined, two, two, grow(st.one_of(two, leaves)), grow(st.one_of(two, leaves, joined)))
name = st.fixed_dictionaries({
    'name': st.one_of(st.tuples(st.sampled_from(['rate', 'Rate', 'area_', 'Größe', 'Ω', '数据', '_x', 'a.b', '😀n', 'X' * 100]),
                                st.integers(1, 9)).map(lambda t: '%s%d' % t),
                      st.integers(0, len(BUILTIN) - 1)),
    'scope': st.one_of(st.just(0), st.just(0), st.integers(0, 5)), 'flags': st.sampled_from([0, 0, 0, 1, 0x10, 0xFC1, 0x0F, 0x0A, 0x08]),
    'tree': trees, 'space': st.integers(0, 3), 'wide': st.integers(0, 1), 'texts': st.integers(0, 1),
    'namex': st.sampled_from([0, 0, 1])})


# few cells: they are there to be referred to
sheet = st.tuples(st.integers(0, 12), st.integers(1, 4), st.integers(0, 2), st.integers(0, 2), sg.any_cell, st.integers(0, 2)).map(
    lambda t: {'name': 's', 'n': t[0], 'cols': [{'gap': 0, 'head': ['t', 'h%d' % i, i], 'v': [['n', 10.0 * i + t[0], 0], t[4]]}
                                                for i in range(t[1])],
               'r0': t[2], 'c0': t[3], 'extra': [], 'merge': [], 'chart': False, 'state': t[5]})

ADDINS = ['EDATE', 'Größe', 'WEEKNUM']


def books(versions):
    x = st.fixed_dictionaries(dict(xlsw.options, ver=st.sampled_from(versions), raw=st.sampled_from([0, 0, 0, 1]),
                                   num=st.sampled_from([0, 2, 3, 5]), big=st.none()))
    return st.fixed_dictionaries({
        'sheets': st.lists(sheet, min_size=1, max_size=4), 'styles': sg.styles, 'date1904': st.just(0),
        'x': x, 'titles': st.permutations(SHEETS), 'kinds': st.lists(st.sampled_from([0, 0, 0, 1, 2, 6]), min_size=4, max_size=4),
        'books': st.permutations(['own', 'addin', 'other', 'dde']),
        'far': st.tuples(st.sampled_from([0, 0, 1, 5, 40]), st.integers(0, 600)), 'names': st.lists(name, min_size=2, max_size=9)})


class Writer(xlsw.Writer):
    def __init__(self, spec):
        spec = dict(spec, sheets=[dict(s, name=t, chart=k > 0) for s, t, k in
                                  zip(spec['sheets'], spec['titles'], spec['kinds'])])
        self.externs = []
        xlsw.Writer.__init__(self, spec)

    def sheetnum(self, i):
        """The index of a sheet among the worksheets, or None."""
        if self.all[i][1]['chart']:
            return None
        return sum(not s['chart'] for n, s in self.all[:i])

    # -- names
    def names(self):
        self.list = []
        seen = set()
        for d in self.spec['names']:
            d = dict(d)
            builtin = not isinstance(d['name'], str)
            text = BUILTIN[d['name']] if builtin else self.text(d['name'])
            scope = d['scope'] % (len(self.all) + 2)        # 0 global, then the sheets, then none
            if scope == len(self.all) + 1 and self.ver < 80:
                scope = 0
            if (text.lower(), scope) in seen:
                continue
            seen.add((text.lower(), scope))
            flags = d['flags'] | (0x20 if builtin else 0)
            if scope == 0:
                at = -1
            elif scope > len(self.all):
                at = -3
            else:
                at = self.sheetnum(scope - 1)
                at = -2 if at is None else at
            self.list.append(dict(d, text=text, builtin=builtin, flags=flags, at=at, scope=scope,
                                  tree=self.settle(d['tree'], len(self.list))))
        count = len(self.list)
        for d in self.list:
            d['tree'] = self.link(d['tree'], count)
            # no formula depends on itself
        self.acyclic()
        out = b''
        for d in self.list:
            if d['tree'] is None:
                d['toks'] = b''
            else:
                d['toks'] = b'\x19\x01\0\0' * (d['space'] == 1) + self.tokens(d['tree'], d)
            raw = bytes([BUILTIN.index(d['text'])]) if d['builtin'] else None
            if self.ver >= 80:
                body = ustr(d['text'], 1, d['wide']) if raw is None else b'\x01\0' + raw
            else:
                body = self.bstr(d['text'], 1) if raw is None else b'\x01' + raw
            n, body = body[0], body[1:]
            lens = [3, 2, 0, 1] if d['texts'] else [0, 0, 0, 0]
            extra = b''.join((b'\0' if self.ver >= 80 else b'') + b'm' * k for k in lens if k)
            ext = d['scope'] if self.ver < 80 else 0
            out += rec(0x18, pack('<HBBHHH4B', d['flags'], 0, n, len(d['toks']), ext, d['scope'], *lens) + body + d['toks'] + extra)
        return self.links() + out

    def links(self):
        if self.ver < 80:
            out = b''
            for n, s in self.all:
                raw = n.encode(self.enc)
                out += rec(0x17, bytes([len(raw), 3]) + raw)
            return rec(0x16, pack('<H', len(self.all) + 2)) + out + rec(0x17, b'\x05\x01other') + rec(0x17, b'\x01\x04\x02')
        out = b''
        for b in self.spec['books']:
            if b == 'own':
                out += rec(0x1AE, pack('<H', len(self.all)) + b'\x01\x04')
            elif b == 'addin':
                out += rec(0x1AE, b'\x01\x00\x01\x3A') + b''.join(
                    rec(0x23, pack('<HI', 0, 0) + ustr(n, 1)) for n in ADDINS)
            elif b == 'other':
                # a list of sheet names too long for one record goes on in the next, wherever that cuts it
                more = self.spec['far']
                names = ['one', 'twö'] + ['s%d' % i + 'xö'[i & 1] * (more[0] % 7) for i in range(more[0])]
                body = pack('<H', len(names)) + ustr('\x01other.xls', 2)
                head = len(body)
                body += b''.join(ustr(n, 2, i % 3 == 1) for i, n in enumerate(names))
                cut = head + more[1] % (len(body) - head) if more[0] else len(body)
                out += rec(0x1AE, body[:cut]) + rec(0x3C, body[cut:]) * (cut < len(body))
                out += rec(0x23, pack('<HI', 0, 0) + ustr('far', 1))
            else:
                out += rec(0x1AE, pack('<H', 0) + ustr('Server\x03topic', 2))
        body = pack('<H', len(self.externs)) + b''.join(pack('<HHH', *e) for e in self.externs)
        if len(body) <= 14:
            return out + rec(0x17, body)
        return out + rec(0x17, body[:14]) + rec(0x3C, body[14:])

    def extern(self, book, first, last):
        e = (self.spec['books'].index(book), first, last)
        if e not in self.externs:
            self.externs.append(e)
        return self.externs.index(e)

    def settle(self, t, at):
        """The tree with every number in range, and every call with a fitting number of arguments."""
        k = t[0]
        if k == 's':
            return ['s', self.text(t[1])[:255]]
        if k in ('ref', 'area'):
            t = list(t)
            kind, a, more = t[1]
            a %= len(self.all)
            t[1] = [kind, a, min(a + more, len(self.all) - 1)]
            top = 65535 if self.ver >= 80 else 16383
            if k == 'ref':
                t[3] &= top
            else:
                r1, c1, r2, c2 = t[3]
                r1, r2, rl = r1 & top, r2 & top, t[4]
                if not (rl[0] or rl[2]):
                    r1, r2 = sorted((r1, r2))
                if not (rl[1] or rl[3]):
                    c1, c2 = sorted((c1, c2))
                t[3] = [r1, c1, r2, c2]
            return t
        if k == 'fn':
            num, name, lo, hi, var = FUNCS[t[1]]
            args = [self.settle(a, at) for a in t[2]]
            args = (args * 5)[:max(lo, min(len(args), hi))]
            if args and args[0][0] == 'miss':
                args[0] = ['i', 1]
            return [k, t[1], args]
        return [self.settle(a, at) if isinstance(a, list) else a for a in t]

    def link(self, t, count):
        if t[0] == 'name':
            return ['name', t[1] % count]
        if t[0] == 'fn':
            return ['fn', t[1], [self.link(a, count) for a in t[2]]]
        return [self.link(a, count) if isinstance(a, list) and a and isinstance(a[0], str) and a[0] not in ('in', 'deleted', 'ext1')
                else a for a in t]

    def acyclic(self):
        order = [None] * len(self.list)

        def uses(t):
            if t[0] == 'name':
                yield t[1]
            for a in (t[2] if t[0] == 'fn' else t):
                if isinstance(a, list) and a and isinstance(a[0], str):
                    for u in uses(a):
                        yield u

        def visit(i):
            if order[i] == 1:
                return False
            if order[i] == 2:
                return True
            order[i] = 1
            ok = all([visit(j) for j in uses(self.list[i]['tree'])])
            if not ok:
                self.list[i]['tree'] = ['i', i]
            order[i] = 2
            return True
        for i in range(len(self.list)):
            visit(i)

    # -- tokens
    def tokens(self, t, d):
        k, ver = t[0], self.ver
        b8 = ver >= 80
        sp = b'\x19\x40\x00\x02' if d['space'] >= 2 else b''
        if k == 'n':
            return sp + b'\x1f' + pack('<d', t[1])
        if k == 'i':
            return sp + b'\x1e' + pack('<H', t[1])
        if k == 's':
            return b'\x17' + (ustr(t[1], 1, d['wide']) if b8 else self.bstr(t[1], 1))
        if k == 'b':
            return b'\x1d' + bytes([t[1]])
        if k == 'e':
            return b'\x1c' + bytes([t[1]])
        if k == 'miss':
            return b'\x16'
        if k == 'arr':
            return b'\x60' + b'\0' * (7 if b8 else 7) + (b'' if ver >= 30 else b'')
        if k == 'err':
            if b8:
                return [b'\x2a' + b'\0' * 4, b'\x2b' + b'\0' * 8, b'\x3c' + b'\0' * 6, b'\x3d' + b'\0' * 10][t[1]]
            return [b'\x2a' + b'\0' * 3, b'\x2b' + b'\0' * 6, b'\x3c' + b'\0' * 17, b'\x3d' + b'\0' * 20][t[1]]
        if k == 'ext':
            if b8:
                if t[1]:
                    return b'\x39' + pack('<HHH', self.extern('addin', 0xFFFE, 0xFFFE), 1, 0)
                return b'\x39' + pack('<HHH', self.extern('other', 0xFFFE, 0xFFFE), 1, 0)
            return b'\x39' + pack('<h8xH12x', len(self.all) + 1, 1)
        if k in ('ref', 'area'):
            op = {'ref': 0x1A, 'area': 0x1B}[k] | t[2] << 5
            kind, a, b = t[1]
            if k == 'ref':
                (r, c), rl = t[3:5], t[5]
                if b8:
                    addr = pack('<HH', r, c | rl[0] << 15 | rl[1] << 14)
                else:
                    addr = pack('<HB', r | rl[0] << 15 | rl[1] << 14, c)
            else:
                (r1, c1, r2, c2), rl = t[3], t[4]
                if b8:
                    addr = pack('<HHHH', r1, r2, c1 | rl[0] << 15 | rl[1] << 14, c2 | rl[2] << 15 | rl[3] << 14)
                else:
                    addr = pack('<HHBB', r1 | rl[0] << 15 | rl[1] << 14, r2 | rl[2] << 15 | rl[3] << 14, c1, c2)
            if b8:
                x = {'in': ('own', a, b), 'deleted': ('own', 0xFFFF, 0xFFFF), 'ext': ('other', 0, 1)}[kind]
                return bytes([op]) + pack('<H', self.extern(*x)) + addr
            x = {'in': (-(a + 1), a, b), 'deleted': (-1, -1, -1), 'ext': (len(self.all) + 1, 0, 0)}[kind]
            return bytes([op]) + pack('<h8xhh', *x) + addr
        if k == 'name' and d['namex'] and self.list[t[1]]['at'] >= -1:
            # a name of this book the long way, through the list of links
            if b8:
                s = 0xFFFE if self.list[t[1]]['at'] < 0 else self.list[t[1]]['scope'] - 1
                return b'\x39' + pack('<HHH', self.extern('own', s, s), t[1] + 1, 0)
            return b'\x39' + pack('<h8xH12x', -(len(self.all) + 2), t[1] + 1)
        if k == 'name':
            return b'\x23' + pack('<H', t[1] + 1) + b'\0' * (2 if b8 else 12)
        if k == 'bin':
            return self.tokens(t[2], d) + self.tokens(t[3], d) + sp + bytes([t[1]])
        if k == 'un':
            return self.tokens(t[2], d) + bytes([t[1]])
        if k == '%':
            return self.tokens(t[1], d) + b'\x14'
        if k == 'paren':
            return self.tokens(t[1], d) + sp + b'\x15'
        if k == 'sum':
            return self.tokens(t[1], d) + b'\x19\x10\0\0'
        if k == 'refop':
            inner = self.tokens(t[2], d) + self.tokens(t[3], d) + bytes([{' ': 0x0F, ',': 0x10, ':': 0x11}[t[1]]])
            return (b'\x29' + pack('<H', len(inner)) if t[4] else b'') + inner
        num, name, lo, hi, var = FUNCS[t[1]]
        args = [self.tokens(a, d) for a in t[2]]
        if num == 1 and d['space'] != 1:
            out = args[0] + b'\x19\x02' + pack('<H', len(args[1]) + 4) + args[1] + b'\x19\x08\x03\x00'
            if len(args) > 2:
                out += args[2] + b'\x19\x08\x03\x00'
        elif num == 100 and d['space'] != 1:
            n = len(args) - 1
            out = args[0] + b'\x19\x04' + pack('<H', n) + b'\x09\x00' * (n + 1)
            for a in args[1:]:
                out += a + b'\x19\x08\x03\x00'
        else:
            out = b''.join(args)
        if var:
            return out + bytes([0x42, len(args)]) + pack('<H', num)
        return out + b'\x41' + pack('<H', num)

    # -- the oracle
    def place(self, w):
        """The worksheets a 3D reference means, as (first, last + 1), or None."""
        kind, a, b = w
        if kind != 'in':
            return None
        x, y = self.sheetnum(a), self.sheetnum(b)
        return None if x is None or y is None else (x, y + 1)

    def blemished(self, t):
        """Whether the formula refers to what is not in the book."""
        if t[0] in ('ref', 'area'):
            return self.place(t[1]) is None
        if t[0] == 'name':
            d = self.list[t[1]]
            return bool(d['flags'] & 8) or self.blemished(d['tree'])
        if t[0] in ('err', 'ext', 'arr'):
            return True
        return any(self.blemished(a) for a in (t[2] if t[0] == 'fn' else t) if isinstance(a, list) and a and isinstance(a[0], str))

    def value(self, t):
        """(kind, value) that the formula must give, or None where more than one answer is right."""
        k = t[0]
        if k in 'ni':
            return NUM, float(t[1])
        if k == 's':
            return STR, t[1]
        if k == 'b':
            return BOOL, t[1]
        if k == 'e':
            return ERR, t[1]
        if k == 'ref' or k == 'area':
            rl = t[5][:2] * 2 if k == 'ref' else t[4]
            r1, c1, r2, c2 = [t[3], t[4]] * 2 if k == 'ref' else t[3]
            half = 32768 if self.ver >= 80 else 8192

            def off(v, rel, half):
                return v - 2 * half if rel and v >= half else v
            box = (off(r1, rl[0], half), off(r2, rl[2], half) + 1, off(c1, rl[1], 128), off(c2, rl[3], 128) + 1)
            flags = (rl[0], rl[2], rl[1], rl[3])
            return (REL if any(rl) else REF), (self.place(t[1]), box, flags, t[2])
        if k == 'name':
            if self.blemished(t):
                return None
            return self.value(self.list[t[1]]['tree'])
        if k == 'paren':
            return self.value(t[1])
        if k in ('un', '%'):
            a = self.value(t[-1])
            if a is None or a[0] != NUM or a[1] is None:
                return None
            return NUM, {'%': a[1] / 100.0, 0x12: a[1], 0x13: -a[1]}[t[1] if k == 'un' else k]
        if k == 'bin':
            return self.binary(SYM[t[1]], self.value(t[2]), self.value(t[3]))
        if k == 'fn' and FUNCS[t[1]][1] in ('IF', 'CHOOSE'):
            test = self.value(t[2][0])
            if test is None or test[0] not in (NUM, BOOL) or test[1] is None:
                return None
            if FUNCS[t[1]][1] == 'IF':
                if test[1] not in (0, 1):
                    return None
                if not test[1] and len(t[2]) == 2:
                    return BOOL, 0
                pick = 2 - int(test[1])
            else:
                if test[0] != NUM or not 1 <= test[1] < len(t[2]):
                    return None
                pick = int(test[1])
            return (NUM, 0) if t[2][pick][0] == 'miss' else self.value(t[2][pick])
        if k == 'refop':
            a, b = self.value(t[2]), self.value(t[3])
            if not (a and b and a[0] == b[0] == REF):
                return None
            (pa, xa, fa, ca), (pb, xb, fb, cb) = a[1], b[1]
            if t[1] == ',' or pa is None or pa != pb or ca != 1 or cb != 1:
                return None
            if t[1] == ':':
                return REF, (pa, (min(xa[0], xb[0]), max(xa[1], xb[1]), min(xa[2], xb[2]), max(xa[3], xb[3])), fa, 1)
            box = (max(xa[0], xb[0]), min(xa[1], xb[1]), max(xa[2], xb[2]), min(xa[3], xb[3]))
            return (REF, (pa, box, fa, 1)) if box[0] < box[1] and box[2] < box[3] else None
        return None

    @staticmethod
    def binary(op, a, b):
        if a is None or b is None or a[0] not in (NUM, STR) or b[0] not in (NUM, STR):
            return None
        x, y = a[1], b[1]
        if op == '&':
            def text(v):
                if isinstance(v, str):
                    return v
                if v == int(v) and abs(v) < 1e15 and not (v == 0 and str(v)[0] == '-'):
                    return str(int(v))
            x, y = text(x), text(y)
            return None if x is None or y is None else (STR, x + y)
        if op in '+-*/^':
            if isinstance(x, str) or isinstance(y, str):
                def num(v):
                    return float(v) if not isinstance(v, str) or re.match(r'\d{1,9}$', v, re.A) else None
                x, y = num(x), num(y)
                if x is None or y is None:
                    return None
            try:
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '^': lambda: x ** y}[op]()
            except (ArithmeticError, ValueError):
                return None
            if isinstance(v, complex) or v != v or abs(v) == float('inf'):
                return None
            return NUM, v
        if isinstance(x, str) != isinstance(y, str):
            return None
        if isinstance(x, str) and (x.lower() != x or y.lower() != y or not (x + y).isascii() or not (x + y).isalnum()):
            return None
        return BOOL, int({'<': x < y, '<=': x <= y, '=': x == y, '>=': x >= y, '>': x > y, '<>': x != y}[op])

    # -- text
    def leaf(self, t):
        """How the text of a formula may show a leaf, or None where that is not known."""
        k = t[0]
        if k == 's':
            return '"' + t[1].replace('"', '""') + '"'
        if k == 'b':
            return ('FALSE', 'TRUE')[t[1]]
        if k == 'e':
            return '"' + sg.ERRORS[t[1]] + '"'
        if k == 'name':
            d = self.list[t[1]]
            if d['at'] < 0:
                return d['text']
            return [n for n, s in self.all if not s['chart']][d['at']] + '!' + d['text']
        if k in ('ref', 'area'):
            place = self.place(t[1])
            if place is None:
                return None
            sheets = [n for n, s in self.all if not s['chart']]

            def q(n):
                return "'" + n.replace("'", "''") + "'" if "'" in n or ' ' in n else n
            out = q(sheets[place[0]]) + (':' + q(sheets[place[1] - 1]) if place[1] - place[0] > 1 else '') + '!'
            kind, (p, (r1, r2, c1, c2), rl, c) = self.value(t)
            if kind == REF:
                one, two = ('$%s$%d' % (sg.colname(c1), r1 + 1), '$%s$%d' % (sg.colname(c2 - 1), r2))
                return out + (one if one == two else one + ':' + two)

            def part(letter, v, rel):
                return '%s%d' % (letter, v + 1) if not rel else '%s[%d]' % (letter, v) if v else letter
            cells = [part('R', r1, rl[0]) + part('C', c1, rl[2]), part('R', r2 - 1, rl[1]) + part('C', c2 - 1, rl[3])]
            return out + ':'.join(cells)

    def readable(self, t):
        """Whether the text of the formula has but one meaning."""
        if t[0] in ('arr', 'err', 'ext'):
            return False
        if t[0] in ('ref', 'area'):
            return self.place(t[1]) is not None
        if t[0] == 'refop':
            return False
        return all(self.readable(a) for a in (t[2] if t[0] == 'fn' else t) if isinstance(a, list) and a and isinstance(a[0], str))

    def plain(self, t):
        """The tree without what its text does not show."""
        k = t[0]
        if k == 'paren':
            return self.plain(t[1])
        if k in 'ni':
            return ['n', float(t[1])]
        if k == 'sum':
            return ['fn', 'SUM', [self.plain(t[1])]]
        if k == 'fn':
            return ['fn', FUNCS[t[1]][1], [self.plain(a) for a in t[2]]]
        if k in ('bin', 'un', '%'):
            out = [self.plain(a) if isinstance(a, list) else a for a in t]
            if k == 'bin':
                out[1] = SYM[t[1]]
            elif k == 'un':
                out[1] = {0x12: '+', 0x13: '-'}[t[1]]
            return out
        if k == 'miss':
            return t
        return ['leaf', self.leaf(t)]

    def leaves(self, t):
        for a in (t[2] if t[0] == 'fn' else t):
            if isinstance(a, list) and a and isinstance(a[0], str):
                for x in self.leaves(a):
                    yield x
        if t[0] in ('s', 'b', 'e', 'name', 'ref', 'area'):
            yield self.leaf(t)


class Bad(Exception):
    pass


class Parser(object):
    """Reads a formula text with the precedence of Excel; the leaves that are no numbers are known."""

    def __init__(self, text, leaves):
        self.text, self.pos = text, 0
        self.leaves = sorted(set(leaves), key=len, reverse=True)

    def peek(self, *what):
        for w in sorted(what, key=len, reverse=True):
            if self.text.startswith(w, self.pos):
                return w

    def take(self, w):
        if not self.text.startswith(w, self.pos):
            raise Bad('%r expected at %d' % (w, self.pos))
        self.pos += len(w)

    def parse(self):
        t = self.binary(1)
        if self.pos != len(self.text):
            raise Bad('more at %d' % self.pos)
        return t

    def binary(self, level):
        if level == 6:
            return self.percent()
        t = self.binary(level + 1)
        while True:
            op = self.peek(*PREC)
            if op is None or PREC[op] != level:
                return t
            self.take(op)
            t = ['bin', op, t, self.binary(level + 1)]

    def percent(self):
        t = self.unary()
        while self.peek('%'):
            self.take('%')
            t = ['%', t]
        return t

    def unary(self):
        op = self.peek('+', '-')
        if op:
            self.take(op)
            return ['un', op, self.unary()]
        return self.primary()

    def primary(self):
        if self.peek('('):
            self.take('(')
            t = self.binary(1)
            self.take(')')
            return t
        m = re.compile(r'\d+(\.\d*)?([eE][-+]?\d+)?').match(self.text, self.pos)
        best = max([w for w in self.leaves if self.text.startswith(w, self.pos)] or [''], key=len)
        f = re.compile(r'[A-Z]+\(').match(self.text, self.pos)
        if best and len(best) >= (len(m.group()) if m else 0) and not (f and len(f.group()) > len(best)):
            self.take(best)
            return ['leaf', best]
        if m:
            self.take(m.group())
            return ['n', float(m.group())]
        if f:
            self.take(f.group())
            args = []
            if self.peek(')'):
                self.take(')')
                return ['fn', f.group()[:-1], []]
            while True:
                args.append(['miss'] if self.peek(',', ')') else self.binary(1))
                if self.peek(','):
                    self.take(',')
                    continue
                self.take(')')
                return ['fn', f.group()[:-1], args]
        raise Bad('nothing known at %d' % self.pos)
