"""C11: textpack gives back every field of every line of the table in the file."""
import numpy as np
from hypothesis import strategies as st

from channelpack import textpack
from core import Sub, Scratch, harness, require, raises, short
import gens
import textgen

RULE = ('A case is a generated table (1 to 12 columns of numbers, with decimal point or comma, exponents, '
        'missing values, and of strings; 1 to 1200 rows) rendered with a delimiter, header lines, a '
        'line of names, padding, blank lines, line ends and an encoding; it is read by file name and '
        'compared with the table. Non-trivial: at least 2 columns and 2 rows.')
ASSUMPTIONS = [
    'every data line has the same number of fields; the first data line has no missing number '
    '(documented: the first line decides what is a number)',
    'a file with decimal comma has one in the first data line']

CONVS = {
    'len': lambda s: len(s),
    'scale': lambda s: float(s.replace(',', '.')) * 2 if s else -1.0,
    'tag': lambda s: '<' + s + '>',
    'const': lambda s: 7,
}


@st.composite
def cases(draw):
    t = draw(textgen.tables())
    convs = {}
    for c, spec in enumerate(t['cols']):
        if draw(st.integers(0, 7)) == 0:
            opts = ['len', 'tag', 'const'] + (['scale'] if spec['t'] == 'num' and '' not in spec['v'] else [])
            convs[str(c)] = draw(st.sampled_from(opts))
    return {'table': t, 'conv': convs, 'dictnames': draw(st.booleans()),
            'enc': draw(st.booleans()), 'debug': draw(st.sampled_from([False] * 4 + [True]))}


def check(case, cov):
    with harness():
        t = case['table']
        table = textgen.Table(t)
        path = Scratch.write('data.txt', table.blob())
        kw = table.kwargs()
        if t['encoding'] != 'utf-8' or case['enc']:
            kw['encoding'] = t['encoding']
        convs = {int(k): v for k, v in case['conv'].items()}
        if convs:
            kw['converters'] = {k: CONVS[v] for k, v in convs.items()}
        names = {}
        if table.names:
            names = dict(enumerate(table.names))
            if case['dictnames']:
                kw['names'] = dict(names)
            else:
                kw['hasnames'] = True
        if case['debug']:
            kw['debug'] = True
    pack = textpack(path, **kw)
    what = 'textpack of %s with %r' % (short(table.text, 300), {k: v for k, v in kw.items()
                                                               if k != 'converters'})
    require(sorted(pack.data) == list(range(table.ncols)), '{}: channels {}', what,
            sorted(pack.data))
    for c in range(table.ncols):
        got = pack(c)
        kind = t['cols'][c]['t']
        if c in convs:
            want = [CONVS[convs[c]](s) for s in table.raw(c)]
            require(gens.same(got, np.array(want)) and got.dtype == np.array(want).dtype,
                    '{}: converted column {} is {}, expected {}', what, c, got, want)
        else:
            want = table.column(c)
            require(textgen.same_column(got, want, kind), '{}: column {} is {}, expected {}', what,
                    c, got.tolist() if isinstance(got, np.ndarray) else got, want)
    require(dict(pack.names) == names, '{}: names {}, expected {}', what, dict(pack.names), names)
    for k, nm in names.items():
        if list(names.values()).count(nm) == 1:
            require(gens.same(pack(nm), pack(k)), '{}: by name {}', what, nm)
    require(pack.fn == path and list(pack.filenames) == [path], '{}: fn {}', what, pack.fn)
    require(pack.mask.tolist() == [True] * t['n'], '{}: mask', what)
    cov.tag('delimiter %r' % t['delim'])
    cov.tag('encoding ' + t['encoding'])
    cov.tagif(t['dec'] == ',', 'decimal comma')
    cov.tagif(any('' in c['v'] for c in t['cols'] if c['t'] == 'num'), 'missing numbers')
    cov.tagif(any(c['t'] == 'str' for c in t['cols']), 'string columns')
    cov.tagif(convs, 'converters')
    cov.tagif(len(table.text) > 8192, 'larger than an io buffer')
    cov.tagif(t['blanks'], 'blank lines')
    return table.ncols > 1 and t['n'] > 1


SUBS = [Sub('tables', cases(), check, 5000, rule=RULE)]
