"""Generated xBase files: fields and records are generated, written, and are their own oracle."""
import datetime
import struct

import numpy as np
from hypothesis import strategies as st

fieldname = st.one_of(
    st.from_regex(r'\A[A-Z][A-Z0-9_]{0,9}\Z'),
    st.sampled_from(['SPEED', 'HEIGHT', 'RPT', 'a', 'B', 'X Y', 'TIME_STAMP', 'ABCDEFGHIJK', 'ch1', 'A ', ' A', 'A']))
ctext = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=40)


@st.composite
def field(draw, maxrec=8):
    typ = draw(st.sampled_from('NNNNFDLCCM'))
    count = draw(st.integers(1, maxrec))
    deci = 0
    just = 'r'
    if typ == 'N':
        deci = draw(st.sampled_from([0, 0, 1, 2, 5]))
        if deci:
            vals = draw(st.lists(st.one_of(st.none(), st.integers(-10**7, 10**7).map(
                lambda v: '%.*f' % (deci, v / 10.0 ** deci))), min_size=count, max_size=count))
        else:
            vals = draw(st.lists(st.one_of(st.none(), st.integers(-999, 99999).map(str),
                                           st.integers(-2**62, 2**62).map(str)),
                                 min_size=count, max_size=count))
            if draw(st.integers(0, 3)) == 0:        # signs and leading zeros
                vals = [v if v is None or v[0] == '-' else draw(st.sampled_from(['+', '0', '000'])) + v
                        for v in vals]
            if draw(st.booleans()):
                vals = [v if v is not None else '0' for v in vals]
        just = draw(st.sampled_from(['r', 'r', 'l', 'nul', 'nulr']))
    elif typ == 'F':
        deci = draw(st.sampled_from([0, 2, 6]))
        vals = draw(st.lists(st.one_of(st.none(), st.integers(-10**6, 10**6).map(
            lambda v: '%.*f' % (max(deci, 1), v / 100.0)), st.sampled_from(
                ['1.5e+03', '-2E-5', '7'])), min_size=count, max_size=count))
        just = draw(st.sampled_from(['r', 'r', 'l']))
    elif typ == 'D':
        vals = draw(st.lists(st.one_of(st.none(), st.dates(
            datetime.date(1, 1, 1), datetime.date(9999, 12, 31)).map(
                lambda d: '%04d%02d%02d' % (d.year, d.month, d.day))),
            min_size=count, max_size=count))
    elif typ == 'L':
        vals = draw(st.lists(st.sampled_from(list('YyTtNnFf? x01')), min_size=count, max_size=count))
    else:
        vals = draw(st.lists(ctext, min_size=count, max_size=count))
    need = max([len(v) for v in vals if v is not None] + [1])
    if typ == 'D':
        size = 8
    elif typ == 'L':
        size = 1
    else:
        size = min(254, need + draw(st.sampled_from([0, 0, 1, 5])))
        if typ == 'C' and draw(st.integers(0, 15)) == 0:
            size = draw(st.sampled_from([254, 255]))
    return {'name': draw(fieldname), 't': typ, 'size': size, 'deci': deci, 'v': vals, 'just': just}


@st.composite
def files(draw, dup=False, big=False):
    fields = draw(st.lists(field(), min_size=1, max_size=draw(st.sampled_from([1, 3, 6, 20])),
                           unique_by=None if dup else (lambda f: f['name'])))
    n = draw(st.one_of(st.integers(1, 6), st.integers(2, 12), st.integers(2, 30),
                       st.sampled_from([0, 1, 255, 256, 700])))
    many = 0
    how = draw(st.integers(0, 299)) if big else 0
    if how in (17, 199):        # more records or fields than any
        fields, n = fields[:1], draw(st.sampled_from([32768, 65535, 65536, 70000]))
    elif how in (77, 139, 277):
        n, many = min(n, 3), draw(st.sampled_from([129, 256, 300, 1100]))
    return {'fields': fields, 'n': n, 'many': many,
            'deleted': draw(st.one_of(st.just([]), st.lists(st.integers(0, 30), max_size=6))),
            'version': draw(st.sampled_from([0x03, 0x83, 0x8B, 0x04, 0x30])),
            'tail': draw(st.sampled_from(['1a', '1a', '', '1a0000', '2041424331'])),
            'junk': draw(st.sampled_from([0, 0, 255, 32, 13])),     # in the reserved bytes
            'date': draw(st.sampled_from([[121, 3, 4], [0, 0, 0], [99, 12, 31]]))}


def cell(f, v):
    size = f['size']
    if v is None:
        return (b'\0' if f['just'] in ('nul', 'nulr') else b' ') * size
    b = v.encode('ascii')
    if f['t'] in 'NF':
        if f['just'] == 'l':
            return b.ljust(size)
        if f['just'] == 'nul':
            return b.ljust(size, b'\0')
        if f['just'] == 'nulr':
            return b.rjust(size, b'\0')
        return b.rjust(size)
    return b.ljust(size)


def value(f, v):
    """What the reader has to return for that field."""
    t = f['t']
    if t in 'NF':
        if v is None:
            return float('nan')
        return int(v) if t == 'N' and not f['deci'] else float(v)
    if t == 'D':
        return None if v is None else datetime.date(int(v[:4]), int(v[4:6]), int(v[6:]))
    if t == 'L':
        return 'T' if v in 'YyTt' else 'F' if v in 'NnFf' else '?'
    return v.ljust(f['size'])


class Dbf(object):
    def __init__(self, spec):
        fields = list(spec['fields'])
        n = spec['n']
        room = 65000 - sum(f['size'] for f in fields)
        for i in range(spec.get('many', 0) - len(fields)):
            f = dict(fields[i], name='F%dX' % i)
            room -= f['size']
            if room < 0:
                break
            fields.append(f)
        lenrec = 1 + sum(f['size'] for f in fields)
        junk = bytes([spec.get('junk', 0)])
        head = struct.pack('<BBBBLHH20s', spec['version'], spec['date'][0], spec['date'][1],
                           spec['date'][2], n, 33 + 32 * len(fields), lenrec, junk * 20)
        for f in fields:
            head += struct.pack('<11sc4sBB14s', f['name'].encode('ascii'), f['t'].encode(),
                                junk * 4, f['size'], f['deci'], junk * 14)
        head += b'\r'
        cells = [[cell(f, v) for v in f['v']] for f in fields]
        vals = [[value(f, v) for v in f['v']] for f in fields]
        deleted = set(spec['deleted'])
        body = []
        self.columns = [[] for _ in fields]
        for i in range(n):
            gone = i in deleted
            body.append(b'*' if gone else b' ')
            for c, f in enumerate(fields):
                k = i % len(f['v'])
                body.append(cells[c][k])
                if not gone:
                    self.columns[c].append(vals[c][k])
        self.rows = len(self.columns[0])
        self.ndeleted = n - self.rows
        self.names = [f['name'] for f in fields]
        self.intact = head + b''.join(body)
        self.blob = self.intact + bytes.fromhex(spec['tail'])
        self.headlen = len(head)

    def array(self, c):
        return np.array(self.columns[c])
