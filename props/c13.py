"""C13: a text source read by name, text stream or byte stream (debug or not) is the same data."""
import io
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from channelpack import textpack
from core import Sub, Scratch, harness, require, raises, short
import textgen

RULE = ('A case is a generated text table read through each kind of source: file name, io.StringIO, '
        'open text file, io.BytesIO and open binary file (with and without encoding), an anonymous '
        'temporary file, a file opened from a Path, a stream positioned past other content, with '
        'debug on or off. Each result is compared with the table (text fields as bytes when a byte '
        'stream is read without encoding). The second generator plants a field that is no number in '
        'a numeric column: every source raises ValueError. Non-trivial: 2 or more columns and rows, '
        'with non-ASCII text, decimal commas or string columns; or a planted error.')
SOURCES = ['path', 'stringio', 'textfile', 'bytesio', 'bytesio-raw', 'binfile', 'binfile-raw',
           'tempfile', 'tempfile-bin', 'pathfile', 'offset', 'offset-bytes']

cases = st.fixed_dictionaries({
    'table': textgen.tables(encodings=('utf-8', 'utf-8', 'latin-1', 'cp1252', 'utf-16', 'ascii')),
    'hasnames': st.booleans(),
    'sources': st.lists(st.sampled_from(SOURCES), min_size=2, max_size=5, unique=True),
    'debug': st.lists(st.booleans(), min_size=5, max_size=5),
    'usecols': st.one_of(st.none(), st.none(), st.lists(st.integers(0, 11), min_size=1,
                                                        max_size=3)),
    'before': st.sampled_from(['x\n', 'some 1 2 3\n4\n', '\n\n', 'åä €\n']),
})


def bytesy(name):
    return name in ('bytesio', 'bytesio-raw', 'binfile', 'binfile-raw', 'tempfile-bin',
                    'offset-bytes')


def opened(name, table, path, before):
    """(what to give textpack, the stream to close or None)"""
    enc = table.t['encoding']
    if name == 'path':
        return path, None
    if name == 'stringio':
        fo = io.StringIO(table.text)
    elif name == 'textfile':
        fo = io.open(path, encoding=enc)
    elif name == 'pathfile':
        fo = io.open(pathlib.Path(path), encoding=enc)
    elif name.startswith('bytesio'):
        fo = io.BytesIO(table.blob())
    elif name.startswith('binfile'):
        fo = io.open(path, 'rb')
    elif name == 'tempfile':
        fo = tempfile.TemporaryFile('w+', encoding=enc, dir=Scratch.root, newline='')
        fo.write(table.text)
        fo.seek(0)
    elif name == 'tempfile-bin':
        fo = tempfile.TemporaryFile('w+b', dir=Scratch.root)
        fo.write(table.blob())
        fo.seek(0)
    elif name == 'offset':
        fo = io.StringIO(before + table.text)
        fo.seek(len(before))
    elif name == 'offset-bytes':
        head = before.encode('utf-8')
        fo = io.BytesIO(head + table.blob())
        fo.seek(len(head))
    return fo, fo


def arguments(name, table, case, debug):
    t = table.t
    kw = table.bytes_kwargs() if bytesy(name) else table.kwargs()
    if name == 'path':
        kw['encoding'] = t['encoding']
    elif bytesy(name) and not name.endswith('raw'):
        kw['encoding'] = t['encoding']
    if case.get('hasnames') and table.names:
        kw['hasnames'] = True
    if case.get('usecols'):
        kw['usecols'] = [c % table.ncols for c in case['usecols']]
    if debug:
        kw['debug'] = True
    return kw


def check(case, cov):
    with harness():
        t = case['table']
        table = textgen.Table(t)
        path = Scratch.write('src.txt', table.blob())
    for name, debug in zip(case['sources'], case['debug']):
        if bytesy(name) and t['encoding'] == 'utf-16':
            continue
        raw = name.endswith('raw')
        with harness():
            source, fo = opened(name, table, path, case['before'])
            kw = arguments(name, table, case, debug)
            cols = sorted(set(kw.get('usecols', range(table.ncols))))
        what = '%s of %s with %r' % (name, short(table.text, 300), kw)
        pack = textpack(source, **kw)
        require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what,
                sorted(pack.data), cols)
        for c in cols:
            got = pack(c)
            want, kind = table.column(c), t['cols'][c]['t']
            if raw and kind == 'str':
                want = [v.encode(t['encoding']) for v in want]
                require(isinstance(got, np.ndarray) and got.tolist() == want,
                        '{}: column {} is {}, expected {}', what, c, got.tolist(), want)
            else:
                require(textgen.same_column(got, want, kind),
                        '{}: column {} is {}, expected {}', what, c, got.tolist(), want)
        names = {}
        if 'hasnames' in kw:
            names = {c: (table.names[c].encode(t['encoding']) if raw else table.names[c])
                     for c in cols}
        require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names),
                names)
        if name in ('path', 'textfile', 'binfile', 'binfile-raw'):
            require(pack.fn == path, '{}: fn is {}', what, pack.fn)
        elif name in ('stringio', 'bytesio', 'bytesio-raw', 'offset', 'offset-bytes'):
            require(pack.fn == '', '{}: fn is {}', what, pack.fn)
        else:
            require(isinstance(pack.fn, str), '{}: fn is {}', what, pack.fn)
        if fo is not None:
            require(not fo.closed, '{}: the stream of the caller was closed', what)
            fo.close()
        cov.tag('source ' + name)
        cov.tagif(debug, 'debug')
    rich = (t['dec'] == ',' or any(c['t'] == 'str' for c in t['cols'])
            or not table.text.isascii())
    return bool(rich and table.ncols > 1 and t['n'] > 1)


bad_cases = st.fixed_dictionaries({
    'table': textgen.tables(encodings=('utf-8', 'latin-1'), numeric_only=True),
    'col': st.integers(0, 30), 'row': st.integers(1, 2000),
    'word': st.sampled_from(['abc', 'x1', '--', '1.2.3', '#N/A']),
    'converter': st.booleans(),
    'sources': st.lists(st.sampled_from(SOURCES[:7]), min_size=1, max_size=3, unique=True)})


class Boom(Exception):
    pass


def boom(s):
    raise Boom(s)


def check_bad(case, cov):
    with harness():
        t = dict(case['table'])
        n = t['n']
        if case['converter']:
            row = 0
        else:
            if n < 2:
                n = t['n'] = 2
            row = 1 + case['row'] % (n - 1)
            c = case['col'] % len(t['cols'])
            spec = dict(t['cols'][c])
            vals = [spec['v'][i % len(spec['v'])] for i in range(n)]
            word = case['word']
            if t['delim'] and any(ch in word for ch in t['delim']):
                word = 'abc'
            vals[row] = word
            spec['v'] = vals
            t['cols'] = t['cols'][:c] + [spec] + t['cols'][c + 1:]
        table = textgen.Table(t)
        path = Scratch.write('bad.txt', table.blob())
    for name in case['sources']:
        for debug in (False, True):
            with harness():
                source, fo = opened(name, table, path, '')
                kw = arguments(name, table, {}, debug)
                if case['converter']:
                    kw['converters'] = {case['col'] % table.ncols: boom}
            what = '%s (debug=%r) of %s with a bad field in row %d' % (
                name, debug, short(table.text, 300), row)
            raises(Boom if case['converter'] else ValueError, lambda: textpack(source, **kw), what)
            if fo is not None:
                require(not fo.closed, '{}: the stream of the caller was closed', what)
                fo.close()
    cov.tagif(case['converter'], 'converter raises')
    return True


SUBS = [Sub('sources', cases, check, 4000, rule=RULE),
        Sub('bad field', bad_cases, check_bad, 1500, rule='planted error')]
