"""C35: the dump and the summary of an xls file tell every record of its workbook stream."""
import io
import re
from struct import pack, unpack

from hypothesis import strategies as st

from channelpack import xlrd
from core import Sub, Scratch, harness, require
import anybook

RULE = ('A case is an xls file: a generated workbook of BIFF 2 to 8 as a bare stream or in a compound document of any layout, or any '
        'sequence of records with zero bytes between and behind them and a rest of one to three bytes. The dump is parsed and the stream put '
        'together again from it; the summary is compared with the records of the stream. '
        'Non-trivial: at least ten records of three kinds, or zero bytes.')

# names of records as the format documentation has them
NAMES = {0x09: 'BOF_B2', 0x0A: 'EOF', 0x22: 'DATEMODE', 0x3C: 'CONTINUE', 0x42: 'CODEPAGE', 0x5C: 'WRITEACCESS',
         0x85: 'BOUNDSHEET', 0xBD: 'MULRK', 0xBE: 'MULBLANK', 0xD6: 'RSTRING', 0xE0: 'XF', 0xE5: 'MERGEDCELLS', 0xFC: 'SST',
         0xFD: 'LABELSST', 0x200: 'DIMENSIONS', 0x201: 'BLANK', 0x203: 'NUMBER', 0x204: 'LABEL', 0x205: 'BOOLERR', 0x207: 'STRING',
         0x208: 'ROW', 0x209: 'BOF', 0x221: 'ARRAY', 0x23E: 'WINDOW2', 0x27E: 'RK', 0x293: 'STYLE', 0x409: 'BOF', 0x41E: 'FORMAT',
         0x4BC: 'SHRFMLA', 0x809: 'BOF', 0x06: 'FORMULA', 0x31: 'FONT', 0x92: 'PALETTE', 0x8C: 'COUNTRY', 0x1C: 'NOTE'}

record = st.one_of(
    st.tuples(st.sampled_from(sorted(NAMES)), st.one_of(st.integers(0, 40), st.sampled_from([15, 16, 17, 32, 255, 256, 300])),
              st.integers(0, 255)).map(list),
    st.tuples(st.integers(0, 0xFFFF), st.integers(0, 40), st.integers(0, 255)).map(list),
    st.tuples(st.just('zero'), st.integers(1, 6)).map(list))
streams = st.fixed_dictionaries({'fmt': st.just('stream'), 'recs': st.lists(record, min_size=1, max_size=40),
                                 'rest': st.integers(0, 3), 'zeros': st.sampled_from([0, 0, 1, 3, 4, 9, 600]),
                                 'un': st.booleans()})
books = st.tuples(anybook.books([80, 80, 70, 50, 45, 40, 30, 21, 20]), st.booleans()).map(
    lambda t: dict(t[0], un=t[1]))
cases = st.one_of(books, streams)

HEAD = re.compile(r'(?: *(\d+): )?([0-9a-f]{4}) (\S+) len = ([0-9a-f]{4}) \((\d+)\)')
HEX = re.compile(r'(?: *(\d+): )?     ((?:[0-9a-f]{2} )+) *?')
ZERO = re.compile(r'(?: *(\d+): )?---- (\d+) zero bytes skipped ----')
MISC = re.compile(r'(?: *(\d+): )?---- Misc bytes at end ----')


def content(case):
    """(file content, stream)."""
    if case['fmt'] != 'stream':
        w = anybook.writer(case)
        data = w.blob
        return data, getattr(w, 'stream', data)
    out = b''
    for r in case['recs']:
        if r[0] == 'zero':
            out += b'\0' * (4 * r[1])
        else:
            code, n, v = r
            out += pack('<HH', code, n) + bytes((v + i * i) % 256 for i in range(n))
    out += (b'\0' * case['zeros'] if case['zeros'] else b'\x11' * case['rest'])
    return out, out


def records(stream):
    """[(position, code, length)], where the zero bytes at the end begin, and what is no record at the end."""
    full = stream.rstrip(b'\0')
    pos, out, zeros = 0, [], []
    while len(stream) - pos >= 4:
        if pos >= len(full):
            return out, zeros
        code, n = unpack('<HH', stream[pos:pos + 4])
        if code or n:
            out.append((pos, code, n))
        else:
            zeros.append(pos)
        pos += 4 + n
    return out, zeros


def check(case, cov):
    with harness():
        data, stream = content(case)
        recs, zeros = records(stream)
        path = Scratch.write('f.xls', data)
    out = io.StringIO()
    xlrd.dump(path, out, unnumbered=case['un'])
    summary = io.StringIO()
    xlrd.count_records(path, summary)
    lines = out.getvalue().split('\n')
    require(lines[-1] == '', 'the dump ends in {}', lines[-1])
    got, heads, tally = b'', [], {}
    expect = None                   # bytes still to come of the record
    for line in lines[:-1]:
        m = ZERO.fullmatch(line)
        if m:
            at, new = m.group(1), b'\0' * int(m.group(2))
            require(not expect, 'zero bytes in the middle of a record: {}', line)
        elif MISC.fullmatch(line):
            at, new, expect = MISC.fullmatch(line).group(1), b'', None
        elif HEAD.fullmatch(line):
            at, code, name, n, dec = HEAD.fullmatch(line).groups()
            require(not expect, 'record {} begins before the one in front has ended', line)
            require(int(n, 16) == int(dec), 'length {} in {}', dec, line)
            new = pack('<HH', int(code, 16), int(dec))
            heads.append((len(got), int(code, 16), int(dec)))
            code = int(code, 16)
            require(NAMES.get(code, name) == name, 'record {:04x} is called {}', code, name)
            tally.setdefault(code, name)
            require(tally[code] == name, 'record {} has two names', code)
            expect = int(dec)
        else:
            m = HEX.match(line)
            require(m, 'line {} of the dump', line)
            at, new = m.group(1), bytes.fromhex(m.group(2))
            chars = ''.join('~' if b == 0 else chr(b) if 32 <= b < 127 else '?' for b in new)
            require(line.endswith(' ' + chars) and len(line) - len(chars) >= 48, 'characters of {}, expected {}', line, chars)
            if expect is not None:
                require(len(new) <= 16 and len(new) <= expect, 'too many bytes in {}', line)
                expect -= len(new)
        if case['un']:
            require(at is None, 'a number in {}', line)
        else:
            require(at is not None and int(at) == len(got), 'number of {}, expected {}', line, len(got))
        got += new
    require(got == stream, 'the dump tells {} bytes, the stream has {}; first difference at {}', len(got), len(stream),
            next((i for i, (a, b) in enumerate(zip(got, stream)) if a != b), min(len(got), len(stream))))
    require(heads == recs, 'records {}, expected {}', heads, recs)

    # the summary
    want = {}
    for _, code, n in recs:
        name = tally[code]
        if name == '<UNKNOWN>':
            name = 'Unknown_0x%04X' % code
        want[name] = want.get(name, 0) + 1
    if zeros:
        want['<Dummy (zero)>'] = len(zeros)
    rows = [line.split(None, 1) for line in summary.getvalue().splitlines()]
    require([r[1] for r in rows] == sorted(r[1] for r in rows), 'the summary is not sorted: {}', rows)
    require(len(rows) == len(want) and {r[1]: int(r[0]) for r in rows} == want, 'summary {}, expected {}', rows,
            sorted(want.items()))
    cov.tag(str(case['fmt']))
    cov.tagif(zeros, 'zero bytes between records')
    cov.tagif(stream.endswith(b'\0\0\0\0\0'), 'zero bytes at the end')
    cov.tagif(data != stream, 'compound document')
    return len(recs) >= 10 and len(tally) >= 3 or bool(zeros)


SUBS = [Sub('files', cases, check, 2500, rule=RULE)]
