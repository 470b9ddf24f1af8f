"""C12: selecting columns (usecols, names) is exactly the restriction of the full read."""
from hypothesis import strategies as st

from channelpack import textpack
from core import Sub, Scratch, harness, require, short
import gens
import textgen

RULE = ('A case is a generated text table and several selections of columns: usecols as int, list, '
        'tuple, range, in any order and with duplicates, with or without a line of names; a names '
        'dict in any order (with usecols and hasnames given too, which it overrides). Each result is '
        'compared with the selected columns of the table, keyed by their column number in the file. '
        'Non-trivial: a proper subset of 2 or more columns, or columns not given in order.')

selection = st.fixed_dictionaries({
    'how': st.sampled_from(['usecols', 'usecols', 'int', 'names', 'names+usecols', 'all']),
    'cols': st.lists(st.one_of(st.integers(0, 30), st.integers(0, 2000)), min_size=1, max_size=6),
    'form': st.sampled_from(['list', 'tuple', 'range']),
    'hasnames': st.booleans(),
    'debug': st.sampled_from([False, False, False, True]),
    'conv': st.sampled_from([None, None, None, 0, 1, 2, 5]),
    'none': st.sampled_from([False, False, True]),
})
cases = st.fixed_dictionaries({
    'table': textgen.tables(encodings=('utf-8', 'latin-1')),
    'source': st.sampled_from(['path', 'stringio']),
    'selections': st.lists(selection, min_size=1, max_size=4)})


def tag(s):
    return '<%s>' % s


def nothing(s):
    return None if len(s) % 2 else s


def check(case, cov):
    import io
    with harness():
        t = case['table']
        table = textgen.Table(t)
        path = Scratch.write('sel.txt', table.blob())
        nc = table.ncols
    rich = False
    for i, s in enumerate(case['selections']):
        with harness():
            kw = table.kwargs()
            given = [c % nc for c in s['cols']]
            names = {}
            conv = None
            if s['how'] == 'int':
                given = given[:1]
                kw['usecols'] = given[0]
            elif s['how'] == 'usecols':
                if s['form'] == 'range':
                    kw['usecols'] = range(min(given), max(given) + 1)
                    given = list(kw['usecols'])
                else:
                    kw['usecols'] = list(given) if s['form'] == 'list' else tuple(given)
            elif s['how'] in ('names', 'names+usecols'):
                names = {c: 'name %d' % c for c in given}
                kw['names'] = dict(names)
                if s['how'] == 'names+usecols':
                    kw['usecols'] = [0]
            else:
                given = list(range(nc))
            cols = sorted(set(given))
            if s['hasnames'] and table.names:
                kw['hasnames'] = True
                if not names:
                    names = {c: table.names[c] for c in cols}
            elif s['hasnames'] and names:
                kw['hasnames'] = True           # ignored
            if s['conv'] is not None:
                conv = s['conv'] % nc
                func = nothing if s['none'] else tag
                kw['converters'] = {conv: func}
            if s['debug']:
                kw['debug'] = True
            kw2 = {k: v for k, v in kw.items() if k != 'converters'}
        what = 'selection %d, textpack of %s with %r' % (i, short(table.text, 300), kw2)
        if case['source'] == 'path':
            pack = textpack(path, encoding=t['encoding'], **kw)
        else:
            pack = textpack(io.StringIO(table.text), **kw)
        require(sorted(pack.data) == cols, '{}: channels {}, expected {}', what,
                sorted(pack.data), cols)
        for c in cols:
            got = pack(c)
            if c == conv:
                want = [func(r) for r in table.raw(c)]
                if None in want:
                    require(got.dtype == object and got.tolist() == want,
                            '{}: column {} is {}, expected {}', what, c, got.tolist(), want)
                    continue
                kind = 'str'
            else:
                want, kind = table.column(c), t['cols'][c]['t']
            require(textgen.same_column(got, want, kind), '{}: column {} is {}, expected {}', what,
                    c, got.tolist(), want)
        require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names),
                names)
        rich = rich or (1 < len(cols) < nc) or given != sorted(given)
        cov.tag('by ' + s['how'])
        cov.tagif(given != sorted(given), 'columns out of order')
        cov.tagif(len(set(given)) != len(given), 'duplicated columns')
        cov.tagif(conv is not None and conv not in cols, 'converter of a column not selected')
    return rich


SUBS = [Sub('selections', cases, check, 5000, rule=RULE)]
