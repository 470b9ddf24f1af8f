"""C15: dbfpack gives back every field of every record that is not deleted."""
import io

import numpy as np
from hypothesis import strategies as st

from channelpack import dbfpack
from core import Sub, Scratch, harness, require, short
import gens
import dbfgen

RULE = ('A case is a generated dBase file (1 to 20 fields of type N with and without decimals, F, D, L, C '
        'and memo; blanks, NUL fill, left and right justified numbers; 0 to 700 records, some '
        'deleted; any trailer), read by file name or from a byte stream and compared with what was '
        'written. Non-trivial: 2 or more fields and records left, or deleted records among others.')

# a stream is read from its current position
offsets = st.sampled_from([0, 0, 0, 1, 7, 32, 100])
cases = st.fixed_dictionaries({'file': dbfgen.files(dup=True, big=True),
                               'source': st.sampled_from(['path', 'path', 'bytesio', 'file']),
                               'offset': offsets})


def source_of(kind, name, blob, offset=0):
    if kind == 'path':
        path = Scratch.write(name, blob)
        return path, path, None
    blob = b'\x03' * offset + blob
    path = Scratch.write(name, blob)
    fo = io.BytesIO(blob) if kind == 'bytesio' else io.open(path, 'rb')
    fo.seek(offset)
    return path, fo, fo


def compare(pack, dbf, cols, what):
    want_cols = cols if dbf.rows else []
    require(sorted(pack.data) == want_cols, '{}: channels {}, expected {}', what,
            sorted(pack.data), want_cols)
    for c in want_cols:
        want = dbf.array(c)
        got = pack(c)
        require(isinstance(got, np.ndarray) and got.dtype == want.dtype and gens.same(got, want)
                and all(type(a) is type(b) for a, b in zip(got.tolist()[:50], want.tolist())),
                '{}: field {} is {}, expected {}', what, c, got, want)
    names = {c: dbf.names[c] for c in cols}
    require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
    require(len(pack.mask) == (dbf.rows if want_cols else 0) and bool(np.all(pack.mask)),
            '{}: mask {}', what, pack.mask)


def check(case, cov):
    with harness():
        dbf = dbfgen.Dbf(case['file'])
        path, src, fo = source_of(case['source'], 't.dbf', dbf.blob, case.get('offset', 0))
    what = 'dbfpack from %s, fields %s' % (case['source'], short(
        [(f['name'], f['t'], f['size'], f['deci']) for f in case['file']['fields']]))
    pack = dbfpack(src)
    compare(pack, dbf, list(range(len(dbf.names))), what)
    require(pack.fn == ('' if case['source'] == 'bytesio' else path), '{}: fn {}', what, pack.fn)
    if fo is not None:
        require(not fo.closed, '{}: stream closed', what)
        fo.close()
    for f in case['file']['fields']:
        cov.tag('type ' + f['t'] + ('.' if f['deci'] else ''))
    cov.tagif(dbf.ndeleted, 'deleted records')
    cov.tagif(dbf.rows > 200, 'more than 200 records')
    cov.tagif(fo is not None and case.get('offset'), 'stream at an offset')
    cov.tagif(not dbf.rows, 'no records')
    return (len(dbf.names) > 1 and dbf.rows > 1) or bool(dbf.ndeleted and dbf.rows)


SUBS = [Sub('files', cases, check, 5000, rule=RULE)]
