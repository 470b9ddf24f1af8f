"""C37: a read depends on the file and the arguments alone, not on what was read before or at the same time."""
import copy
import io
import os
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from channelpack import dbfpack, lazy_textpack, sheetpack, textpack, xlrd
from core import Sub, Scratch, Violation, harness, require, short
import anybook
import dbfgen
import textgen
from c15 import compare as compare_dbf
from c18 import compare_pack, compare_sheet

RULE = {
    'histories': ('A case is up to five contents (text tables, tables for lazy_textpack, dBase files, workbooks of any format) and a '
                  'history of up to 12 steps: a content, or the same with its columns turned round, is written to one of two file names '
                  '(sizes and time stamps may be the same as before), read with some selection, read by a wrong reader, a pack read before is changed in place, workbooks are opened '
                  'on demand and their sheets loaded in turn. Every read is compared with the content, the arguments with what they '
                  'were, and at the end every pack not changed is compared again. Non-trivial: three reads with a rewriting, '
                  'a change or a failure between them.'),
    'threads': ('A case is two to five such files, read by as many threads at the same time, each up to three times, with the '
                'interpreter switching threads as often as it can. Every result is compared with its content. Non-trivial: '
                'two kinds of files or two files of one kind.')}


@st.composite
def lazies(draw):
    n = draw(st.integers(1, 4))
    return {'cols': [draw(st.lists(st.integers(-9999, 9999), min_size=5, max_size=5)) for _ in range(n + 1)],
            'sep': draw(st.sampled_from([',', ';', '\t', ' '])), 'n': draw(st.integers(3, 40)),
            'dec': draw(st.sampled_from('.,')), 'names': draw(st.booleans()), 'head': draw(st.integers(0, 2)),
            'word': draw(st.sampled_from(['speed', 'höjd', 't', 'X']))}


contents = st.one_of(
    textgen.tables(encodings=('utf-8', 'utf-8', 'latin-1')).map(lambda t: ['text', t]), lazies().map(lambda t: ['lazy', t]),
    dbfgen.files(dup=False, big=False).map(lambda t: ['dbf', t]), anybook.books(maxsheets=3, tall=False).map(lambda t: ['book', t]))


class Text(object):
    kind = 'text'

    def __init__(self, spec):
        self.table = textgen.Table(spec)
        self.blob = self.table.blob()

    def read(self, path, how):
        t = self.table
        kw = t.kwargs()
        kw['encoding'] = t.t['encoding']
        cols = list(range(t.ncols))
        names = {}
        if how % 3 == 1:
            kw['usecols'] = [(how // 3 + k) % t.ncols for k in (1, 0)]
            cols = sorted(set(kw['usecols']))
        if how % 4 == 1 and t.names:
            kw['hasnames'] = True
            names = {c: t.names[c] for c in cols}
        elif how % 4 == 2:
            names = {c: 'n%d' % c for c in cols}
            kw['names'] = dict(names)
        if how % 5 == 1:
            kw['converters'] = {cols[0]: lambda s: len(s)}
        before = copy.copy(kw), copy.deepcopy({k: v for k, v in kw.items() if k != 'converters'}), dict(kw.get('converters', {}))
        pack = textpack(path, **kw)
        require(kw == before[0] and {k: v for k, v in kw.items() if k != 'converters'} == before[1]
                and kw.get('converters', {}) == before[2], 'textpack changed its arguments: {}', kw)
        first = [len(s) for s in t.raw(cols[0])] if 'converters' in kw else None
        return pack, lambda what: self.compare(pack, cols, names, first, path, what)

    def compare(self, pack, cols, names, first, path, what):
        require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what, sorted(pack.data), cols)
        for c in cols:
            if first is not None and c == cols[0]:
                require(pack.data[c].tolist() == first, '{}: converted column {} is {}, expected {}', what, c, pack.data[c], first)
                continue
            want, kind = self.table.column(c), self.table.t['cols'][c]['t']
            require(textgen.same_column(pack.data[c], want, kind), '{}: column {} is {}, expected {}', what, c, pack.data[c].tolist(), want)
        require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
        require(pack.fn == path, '{}: fn {}', what, pack.fn)

    def other(self, path):
        dbfpack(path)


class Lazy(object):
    kind = 'lazy'

    def __init__(self, spec):
        dec = spec['dec'] if spec['sep'] != ',' else '.'
        sep = spec['sep']
        self.names = {c: '%s_%s' % (spec['word'], 'abcde'[c]) for c in range(len(spec['cols']))} if spec['names'] else {}
        lines = ['# a file of numbers'] * spec['head']
        if self.names:
            lines.append(sep.join(self.names.values()))
        self.columns = []
        cells = []
        for col in spec['cols']:
            vals = [col[i % len(col)] / 8 for i in range(spec['n'])]
            self.columns.append(vals)
            cells.append([('%.3f' % v).replace('.', dec) for v in vals])
        lines += [sep.join(row) for row in zip(*cells)]
        self.blob = ('\n'.join(lines) + '\n').encode('utf-8')

    def read(self, path, how):
        pack = lazy_textpack(path, encoding='utf-8') if how % 2 else lazy_textpack(path, parselines=30, encoding='utf-8')
        return pack, lambda what: self.compare(pack, path, what)

    def compare(self, pack, path, what):
        require({k: v.tolist() for k, v in pack.data.items()} == dict(enumerate(self.columns)), '{}: data {}, expected {}', what,
                dict(pack.data), self.columns)
        require(dict(pack.names) == self.names, '{}: names {}, expected {}', what, dict(pack.names), self.names)
        require(pack.fn == path, '{}: fn {}', what, pack.fn)

    def other(self, path):
        sheetpack(path)


class Dbf(object):
    kind = 'dbf'

    def __init__(self, spec):
        self.dbf = dbfgen.Dbf(spec)
        self.blob = self.dbf.blob

    def read(self, path, how):
        cols = list(range(len(self.dbf.names)))
        if how % 3 == 1:
            cols = [c for c in cols if (c + how) % 2] or cols[:1]
            names = [self.dbf.names[c] for c in reversed(cols)]
            was = list(names)
            pack = dbfpack(path, names)
            require(names == was, 'dbfpack changed its argument names to {} from {}', names, was)
        else:
            pack = dbfpack(path)
        return pack, lambda what: self.compare(pack, cols, path, what)

    def compare(self, pack, cols, path, what):
        compare_dbf(pack, self.dbf, cols, what)
        require(pack.fn == path, '{}: fn {}', what, pack.fn)

    def other(self, path):
        textpack(path, usecols=[7, 9])


class Book(object):
    kind = 'book'

    def __init__(self, spec):
        self.w = anybook.writer(spec)
        self.blob = self.w.blob
        self.sheets = [s for s in self.w.sheets]
        self.good = [i for i, s in enumerate(self.sheets) if s.nrows > 1 and s.ncols]

    def read(self, path, how):
        if not self.good:
            book = xlrd.open_workbook(path)
            book.release_resources()
            return None, lambda what: self.compare_book(book, what)
        i = self.good[how % len(self.good)]
        s = self.sheets[i]
        header = how % 3 != 1
        cols = None
        if how % 5 == 1:
            cols = sorted(set([s.ncols - 1, how % s.ncols]))
            was = list(cols)
            pack = sheetpack(path, sheet=i, header=header, usecols=cols)
            require(cols == was, 'sheetpack changed its argument usecols to {} from {}', cols, was)
        else:
            pack = sheetpack(path, sheet=i, header=header)
        return pack, lambda what: self.compare(pack, s, header, cols, path, what)

    def compare(self, pack, sheet, header, cols, path, what):
        if cols is None:
            compare_pack(pack, sheet, self.w.datemode, what, header, path)
            return
        require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what, sorted(pack.data), cols)

    def compare_book(self, book, what):
        for i, s in enumerate(self.sheets):
            compare_sheet(book.sheet_by_index(i), s, '%s, sheet %d' % (what, i))

    def other(self, path):
        dbfpack(path)


def twin(kind, spec):
    """Another content, as like in size and shape as can be: its columns are turned round."""
    spec = copy.deepcopy(spec)
    if kind == 'book':
        for s in spec['sheets']:
            s['cols'].reverse()
    elif kind == 'dbf':
        spec['fields'].reverse()
    elif kind == 'lazy' or all(v.strip() for c in spec['cols'] for v in c['v']):
        spec['cols'].reverse()
        if kind == 'text' and spec['names']:
            spec['names'] = spec['names'][::-1]
    return KINDS[kind](spec)


KINDS = {'text': Text, 'lazy': Lazy, 'dbf': Dbf, 'book': Book}
slot = st.integers(0, 1)
step = st.one_of(
    st.tuples(st.just('put'), slot, st.integers(0, 4), st.booleans()), st.tuples(st.just('read'), slot, st.integers(0, 60)),
    st.tuples(st.just('read'), slot, st.integers(0, 60)), st.tuples(st.just('putread'), slot, st.integers(0, 4), st.integers(0, 60)),
    st.tuples(st.just('twinread'), slot), st.tuples(st.just('twinread'), slot), st.tuples(st.just('wrong'), slot), st.tuples(st.just('spoil'), st.integers(0, 9)), st.tuples(st.just('open'), slot),
    st.tuples(st.just('load'), st.integers(0, 3), st.integers(0, 5))).map(list)
cases = st.fixed_dictionaries({'contents': st.lists(contents, min_size=2, max_size=5), 'steps': st.lists(step, min_size=3, max_size=12),
                               'stamp': st.booleans()})


def check(case, cov):
    with harness():
        files = [KINDS[k](spec) for k, spec in case['contents']]
        twins = [twin(k, spec) for k, spec in case['contents']]
        last = [0, 0]
        paths = [Scratch.path('data%d.txt' % i) for i in (0, 1)]

        def put(i, f):
            Scratch.write('data%d.txt' % i, f.blob)
            if case['stamp']:
                os.utime(paths[i], (10**9, 10**9))
            inside[i] = f
        inside = [None, None]
        put(0, files[0])
        put(1, files[1])
    packs, books = [], []
    reads, between, rich = 0, False, False
    for n, s in enumerate(case['steps']):
        op = s[0]
        what = 'step %d %r of %s' % (n, s, short([x[:4] for x in case['steps'][:n]], 500))
        if op in ('put', 'putread'):
            with harness():
                put(s[1], files[s[2] % len(files)])
            between = between or reads > 0
        if op == 'twinread':
            with harness():
                f = inside[s[1]]
                put(s[1], twins[files.index(f)] if f in files else files[twins.index(f)])
            between = between or reads > 0
        if op in ('read', 'putread', 'twinread'):
            f = inside[s[1]]
            if op != 'twinread':
                last[s[1]] = s[-1]
            how = last[s[1]]
            pack, compare = f.read(paths[s[1]], how)
            compare(what + ': ' + f.kind)
            packs.append([pack, compare, '%s (%s), looked at later' % (what, f.kind)])
            reads += 1
            rich = rich or (reads > 2 and between)
            cov.tag('read ' + f.kind)
        elif op == 'wrong':
            try:
                inside[s[1]].other(paths[s[1]])
            except Exception:       # or some nonsense: not judged
                cov.tag('failed read')
            between = between or reads > 0
        elif op == 'spoil' and packs:
            p = packs[s[1] % len(packs)]
            if p[0] is not None and p[1]:
                pack = p[0]
                p[1] = None
                for k in list(pack.data):
                    a = pack.data[k]
                    if len(a):
                        a[:] = a[-1:] if a.dtype.kind != 'f' else 77.5
                    pack.names[k] = 'spoilt'
                pack.mask[:] = False
                pack.data.clear()
                between = True
                cov.tag('spoilt pack')
        elif op == 'open' and inside[s[1]].kind == 'book':
            f = inside[s[1]]
            # from memory: the file may be written again
            books.append((f, xlrd.open_workbook(file_contents=f.blob, on_demand=True)))
            cov.tag('opened books')
        elif op == 'load' and books:
            f, book = books[s[1] % len(books)]
            if f.sheets:
                i = s[2] % len(f.sheets)
                compare_sheet(book.sheet_by_index(i), f.sheets[i], '%s: sheet %d of an opened book' % (what, i))
    for pack, compare, what in packs:
        if compare:
            compare(what)
    return rich


thread_cases = st.fixed_dictionaries({'contents': st.lists(contents, min_size=2, max_size=5), 'times': st.integers(1, 3),
                                      'how': st.lists(st.integers(0, 60), min_size=5, max_size=5), 'same': st.booleans()})


def check_threads(case, cov):
    with harness():
        files = [KINDS[k](spec) for k, spec in case['contents']]
        if case['same']:
            files += files[:1]
        paths = [Scratch.write('t%d.txt' % i, f.blob) for i, f in enumerate(files)]
        gate = threading.Barrier(len(files))
        errors = []

    def work(i):
        try:
            gate.wait()
            for t in range(case['times']):
                pack, compare = files[i].read(paths[i], case['how'][i % 5] + t)
                compare('thread %d of %d, %s, read %d' % (i, len(files), files[i].kind, t))
        except BaseException as e:
            errors.append(e)
    was = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(files))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(was)
    for e in errors:
        raise e
    cov.tag('%d threads' % len(files))
    kinds = [f.kind for f in files]
    for k in set(kinds):
        cov.tag('with ' + k)
    return len(files) > 1


SUBS = [Sub('histories', cases, check, 2000, rule=RULE['histories']),
        Sub('threads', thread_cases, check_threads, 800, rule=RULE['threads'])]
