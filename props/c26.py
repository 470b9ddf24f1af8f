"""C26: a file read by name is released and unchanged afterwards, whether the read succeeds or fails."""
import gc
import io
import os
import warnings
import zipfile

from hypothesis import strategies as st

from channelpack import dbfpack, lazy_textpack, sheetpack, textpack
from core import Sub, Scratch, harness, require
import anybook
import dbfgen
import textgen

RULE = ('A case is a generated text, dBase, xls or xlsx file, intact or damaged (cut at any place, undecodable bytes '
        'or non-numbers put in, garbage with the right signature, a part of the zip archive cut, emptied or left out) '
        'and one to three reads of it by name with right or wrong arguments. After every read, succeeded or failed, no '
        'descriptor or memory mapping of the file is open, no file object was left to the garbage collector, the '
        'directory holds the same file with the same bytes, and reading an intact file again gives the same pack. '
        'Non-trivial: a failing read, or two successful ones.')

fault = st.one_of(
    st.just(None), st.just(None),
    st.tuples(st.just('cut'), st.integers(0, 1000)).map(list),
    st.tuples(st.just('put'), st.integers(0, 1000), st.sampled_from(['ff', '00', 'c328', '80', 'fffe', '0d0a', '78797a'])).map(list),
    st.tuples(st.just('junk'), st.sampled_from(['504b0304', 'd0cf11e0a1b11ae1', '09081000', '09000400', '03', '']),
              st.integers(0, 3000)).map(list),
    st.tuples(st.just('part'), st.integers(0, 20), st.sampled_from(['cut', 'empty', 'drop', 'text'])).map(list))
reads = st.lists(st.sampled_from(['right', 'right', 'right', 'wrong1', 'wrong2', 'wrong3', 'missing']), min_size=1, max_size=3)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['text', 'lazy', 'dbf', 'sheet', 'sheet', 'sheet']))
    case = {'kind': kind, 'fault': draw(fault), 'reads': draw(reads)}
    if kind in ('text', 'lazy'):
        case['table'] = draw(textgen.tables())
    elif kind == 'dbf':
        case['file'] = draw(dbfgen.files(dup=False))
    else:
        case['book'] = draw(anybook.books(formats=['xlsx', 'xlsx', 80, 80, 70, 50, 45, 30, 20], tall=False))
    return case


def damage(blob, fault, kind):
    if not fault or (fault[0] == 'part' and blob[:2] != b'PK'):
        return blob
    if fault[0] == 'cut':
        return blob[:len(blob) * fault[1] // 1000]
    if fault[0] == 'put':
        if kind == 'sheet':  # a damaged length or row number may ask for any amount of memory
            return blob + bytes.fromhex(fault[2])
        at = len(blob) * fault[1] // 1000
        return blob[:at] + bytes.fromhex(fault[2]) + blob[at:]
    if fault[0] == 'junk':
        return (bytes.fromhex(fault[1]) + b'\x07\x11junk' * 500)[:fault[2]]
    old = zipfile.ZipFile(io.BytesIO(blob))
    out = io.BytesIO()
    names = old.namelist()
    victim = names[fault[1] % len(names)]
    with zipfile.ZipFile(out, 'w') as zf:
        for n in names:
            data = old.read(n)
            if n == victim:
                if fault[2] == 'drop':
                    continue
                data = {'cut': data[:len(data) // 2], 'empty': b'', 'text': b'not xml'}[fault[2]]
            zf.writestr(n, data)
    return out.getvalue()


def open_handles():
    out = []
    root = Scratch.root
    for fd in os.listdir('/proc/self/fd'):
        try:
            link = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if link.startswith(root):
            out.append('descriptor %s -> %s' % (fd, os.path.basename(link)))
    with open('/proc/self/maps') as fo:
        out += ['mapping of ' + os.path.basename(line.rstrip()) for line in fo if root in line]
    return out


def summary(pack):
    return [(k, str(a.dtype), [repr(v) for v in a.tolist()]) for k, a in sorted(pack.data.items())], \
        sorted(pack.names.items()), pack.fn


def reader(case, how, path, w):
    kind = case['kind']
    if how == 'missing':
        path = path + '.not'
    if kind == 'text':
        kw = w.kwargs()
        kw['encoding'] = case['table']['encoding']
        kw.update({'wrong1': {'skiprows': 3000}, 'wrong2': {'encoding': 'ascii'}, 'wrong3': {'usecols': [0, 99]}}.get(how, {}))
        return lambda: textpack(path, **kw)
    if kind == 'lazy':
        kw = {'encoding': case['table']['encoding']}
        kw.update({'wrong1': {'parselines': 1}, 'wrong2': {'encoding': 'ascii'}, 'wrong3': {'delimiter': '@@'}}.get(how, {}))
        return lambda: lazy_textpack(path, **kw)
    if kind == 'dbf':
        names = {'wrong1': ['NO SUCH'], 'wrong2': [w.names[0]], 'wrong3': 5}.get(how)
        return lambda: dbfpack(path, names)
    kw = {'wrong1': {'sheet': 'no such'}, 'wrong2': {'sheet': 77}, 'wrong3': {'usecols': [0, 9999]}}.get(how, {})
    return lambda: sheetpack(path, **kw)


def check(case, cov):
    with harness():
        kind = case['kind']
        if 'table' in case:
            w = textgen.Table(case['table'])
            blob, suffix = w.blob(), '.txt'
        elif kind == 'dbf':
            w = dbfgen.Dbf(case['file'])
            blob, suffix = w.blob, '.dbf'
        else:
            w = anybook.writer(case['book'])
            blob, suffix = w.blob, anybook.suffix(case['book'])
        blob = damage(blob, case['fault'], kind)
        path = Scratch.write('f' + suffix, blob)
        before = sorted(os.listdir(Scratch.root))
    failed = good = 0
    results = {}
    for how in case['reads']:
        call = reader(case, how, path, w)
        what = '%s read %r of a file with fault %r' % (kind, how, case['fault'])
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('ignore')
            warnings.simplefilter('always', ResourceWarning)
            try:
                res = summary(call())
                good += 1
            except Exception as exc:
                res = type(exc).__name__
                failed += 1
                del exc
        leaks = [str(x.message) for x in caught if x.category is ResourceWarning]
        require(not leaks, '{}: {}', what, leaks)
        left = open_handles()
        if left:
            gc.collect()
        require(not left, '{}: left open: {}', what, left)
        require(sorted(os.listdir(Scratch.root)) == before, '{}: files {}', what, sorted(os.listdir(Scratch.root)))
        with open(path, 'rb') as fo:
            require(fo.read() == blob, '{}: the file was changed', what)
        if how in results:
            require(results[how] == res, '{}: the first time {}, then {}', what, results[how], res)
        results[how] = res
        cov.tag('%s %s' % (kind, 'raised' if isinstance(res, str) else 'read'))
    return failed > 0 or good > 1


SUBS = [Sub('reads', cases(), check, 5000, rule=RULE)]
