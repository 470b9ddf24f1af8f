"""C36: reading a damaged file ends, with an error or a result, in time and memory in proportion to the file."""
import io
import re
import resource
import signal
import struct
import zipfile

from hypothesis import strategies as st

from channelpack import dbfpack, xlrd
from core import CaseTimeout, Sub, harness, require
import anybook
import dbfgen
import namegen
import xlsmeta
import xlsxw

RULE = ('A case is a generated file and up to six damages: bytes, words or double words set (record headers, sector tables, directory '
        'entries and header fields of the compound document aimed at), pieces cut out, doubled or copied elsewhere; for xlsx, attribute values '
        'or bytes of one part replaced. Each read must end within %d s of CPU time (most take milliseconds) and 1 GB; what is returned or raised is not judged. '
        'Non-trivial: the damage changed the file.')
LIMIT = 20
MEMORY = 1 << 30
RULE %= LIMIT

value = st.one_of(st.sampled_from([0, 1, 2, 0xFF, 0xFFFF, 0xFFFE, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0x7FFFFFFF, 0x80000000]),
                  st.integers(0, 255), st.integers(0, 4000), st.integers(0, 2**32 - 1))
where = st.one_of(st.tuples(st.just('at'), st.integers(0, 600)), st.tuples(st.just('frac'), st.integers(0, 9999)),
                  st.tuples(st.just('record'), st.integers(0, 500), st.integers(0, 40)),
                  st.tuples(st.just('sector'), st.integers(0, 40), st.integers(0, 511)),
                  st.tuples(st.just('end'), st.integers(0, 2000))).map(list)
damage = st.one_of(
    st.tuples(st.just('set'), where, st.sampled_from([1, 2, 4, 4]), value),
    st.tuples(st.just('set'), where, st.sampled_from([1, 2, 4, 4]), value),
    st.tuples(st.sampled_from(['sat', 'ssat', 'dir', 'dir', 'head']), st.integers(0, 60), st.sampled_from([1, 2, 4, 4]), st.one_of(
        value, st.integers(0, 20), st.integers(0, 20)), st.integers(0, 8)),
    st.tuples(st.just('msx'), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.sampled_from(['cut', 'insert']), where, st.integers(1, 600)),
    st.tuples(st.just('copy'), where, where, st.sampled_from([1, 2, 4, 8, 20, 64, 128, 512])),
).map(list)

def record_starts(blob, start):
    out, pos = [], start
    while pos + 4 <= len(blob) and len(out) < 600:
        out.append(pos)
        pos += 4 + int.from_bytes(blob[pos + 2:pos + 4], 'little')
    return out or [0]


def place(blob, starts, w):
    if w[0] == 'at':
        at = w[1]
    elif w[0] == 'frac':
        at = len(blob) * w[1] // 10000
    elif w[0] == 'record':
        at = starts[w[1] % len(starts)] + w[2]
    elif w[0] == 'sector':
        at = 512 * w[1] + w[2]
    else:
        at = len(blob) - 1 - w[1]
    return max(0, min(at, len(blob) - 1))


HEADER = [24, 26, 30, 32, 44, 48, 56, 60, 64, 68, 72, 76, 80]
ENTRY = [64, 66, 68, 72, 76, 116, 120, 116, 0]


def aimed(blob, d):
    """The place of a damage in the tables of a compound document, or None."""
    if blob[:2] != b'\xd0\xcf' or len(blob) < 1024:
        return None
    nsec = (len(blob) - 512) // 512
    if d[0] == 'head':
        return HEADER[d[1] % len(HEADER)]
    first, = struct.unpack('<i', blob[{'sat': 76, 'dir': 48, 'ssat': 60}[d[0]]:][:4])
    if not 0 <= first < nsec:
        return None
    if d[0] == 'dir':
        return 512 + 512 * first + 128 * (d[1] % 4) + ENTRY[d[4]]
    return 512 + 512 * first + 4 * d[1]


def damaged(blob, case):
    starts = record_starts(blob, 512 if blob[:2] == b'\xd0\xcf' else 0)
    for d in case['damage']:
        if d[0] == 'msx':               # an extended sector table that may go round in circles
            for at, v in ((68, d[1]), (72, 1), (512 + 512 * d[1] + 508, d[2]), (512 + 512 * d[2] + 508, d[1])):
                if at + 4 <= len(blob):
                    blob = blob[:at] + struct.pack('<i', v) + blob[at + 4:]
            continue
        if d[0] in ('sat', 'ssat', 'dir', 'head'):
            at = aimed(blob, d)
            if at is None:
                continue
        else:
            at = place(blob, starts, d[1])
        if d[0] in ('set', 'sat', 'ssat', 'dir', 'head'):
            blob = blob[:at] + (d[3] % 256 ** d[2]).to_bytes(d[2], 'little') + blob[at + d[2]:]
        elif d[0] == 'cut':
            blob = blob[:at] + blob[at + d[2]:]
        elif d[0] == 'insert':
            blob = blob[:at] + blob[at:at + d[2]] + blob[at:]
        else:
            src = place(blob, starts, d[2])
            piece = blob[src:src + d[3]]
            blob = blob[:at] + piece + blob[at + len(piece):]
        blob = blob or b'\0'
    return blob


def run(func, size, cov, what):
    with open('/proc/self/statm') as fo:
        used = int(fo.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    limit = used + MEMORY
    if hard != resource.RLIM_INFINITY:
        limit = min(limit, hard)
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    fail = None                 # raised outside of the handlers: no frame of the reader is kept
    try:
        func()
        cov.tag('read')
    except MemoryError:
        fail = 'more than 1 GB'
    except CaseTimeout:
        fail = 'more than %d s' % LIMIT
    except Exception as exc:
        cov.tag('refused', 'refused with ' + type(exc).__name__)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 4 * LIMIT)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    require(fail is None, '{}: {} bytes take {}', what, size, fail)


def checker(writer):
    def check(case, cov):
        with harness():
            blob = writer(case['book']).blob
            bad = damaged(blob, case)
        for kw in ({}, {'ignore_workbook_corruption': True}, {'formatting_info': True}):
            run(lambda: xlrd.open_workbook(file_contents=bad, logfile=io.StringIO(), ragged_rows=True, **kw), len(bad), cov,
                'open_workbook %s' % kw)
        return bad != blob
    return check


def check_dbf(case, cov):
    with harness():
        blob = dbfgen.Dbf(case['book']).blob
        bad = damaged(blob, case)
    run(lambda: dbfpack(io.BytesIO(bad)), len(bad), cov, 'dbfpack')
    return bad != blob


def check_xlsx(case, cov):
    with harness():
        blob = xlsxw.Writer(case['book']).blob
        zf = zipfile.ZipFile(io.BytesIO(blob))
        parts = [(n, zf.read(n)) for n in zf.namelist()]
        if case['text']:
            order = [i for i, (n, _) in enumerate(parts) if n.lower().endswith('.xml')]
            k = order[case['part'] % len(order)]
            new = parts[k][1]
            for at, val in case['text']:
                found = list(re.finditer(rb'"([A-Za-z0-9]{1,9})"', new))
                if found:
                    m = found[at % len(found)]
                    new = new[:m.start(1)] + val.encode() + new[m.end(1):]
        else:
            k = case['part'] % len(parts)
            new = damaged(parts[k][1], case)
        parts[k] = (parts[k][0], new)
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w') as z:
            for n, b in parts:
                z.writestr(n, b)
        bad = out.getvalue()
    run(lambda: xlrd.open_workbook(file_contents=bad, logfile=io.StringIO(), ragged_rows=True), len(bad), cov, 'open_workbook')
    return True


def with_damage(books, **kw):
    return st.fixed_dictionaries(dict({'book': books, 'damage': st.lists(damage, min_size=1, max_size=6)}, **kw))


XLS = [80, 80, 80, 70, 50, 45, 40, 30, 21, 20]
SUBS = [Sub('xls', with_damage(anybook.books(formats=XLS, maxsheets=2, tall=False)), checker(anybook.writer), 3000),
        Sub('meta', with_damage(xlsmeta.books([80, 80, 80, 70, 50, 40, 30, 21, 20], tall=False)), checker(xlsmeta.Writer), 1500),
        Sub('names', with_damage(namegen.books([80, 80, 80, 70, 50])), checker(namegen.Writer), 1500),
        Sub('dbf', with_damage(dbfgen.files(dup=True, big=False)), check_dbf, 1500),
        Sub('xlsx', with_damage(anybook.books(formats=["xlsx"], tall=False), part=st.integers(0, 30), text=st.one_of(st.just([]), st.lists(st.tuples(
            st.integers(0, 200), st.one_of(st.sampled_from(['0', '-1', 'A', 'ZZZZZZ1', 'XFE1', 'A0', 'A1048577', '99999999', '', '1e9']),
                                           value.map(str))).map(list), min_size=1, max_size=4))), check_xlsx, 1500)]
