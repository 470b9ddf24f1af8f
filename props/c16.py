"""C16: dbfpack(names=...) is the restriction of the full read to those fields."""
from hypothesis import strategies as st

from channelpack import dbfpack
from core import Sub, harness, require, short
import dbfgen
import c15

RULE = ('A case is a generated dBase file (field names may repeat) and several selections of field '
        'names, in any order and with repetitions, as list, tuple or set; each result is compared '
        'with the selected fields of the file, keyed by their position in the file. Non-trivial: a '
        'proper subset of the fields and at least one record.')

cases = st.fixed_dictionaries({
    'file': dbfgen.files(dup=True, big=True),
    'source': st.sampled_from(['path', 'path', 'bytesio', 'file']),
    'offset': c15.offsets,
    'sel': st.lists(st.fixed_dictionaries({
        'i': st.lists(st.integers(0, 40), min_size=1, max_size=8),
        'form': st.sampled_from(['list', 'tuple', 'set'])}), min_size=1, max_size=3)})


def check(case, cov):
    with harness():
        dbf = dbfgen.Dbf(case['file'])
    rich = False
    for sel in case['sel']:
        with harness():
            names = [dbf.names[i % len(dbf.names)] for i in sel['i']]
            cols = [c for c, nm in enumerate(dbf.names) if nm in names]
            path, src, fo = c15.source_of(case['source'], 't.dbf', dbf.blob, case.get('offset', 0))
            given = {'list': list, 'tuple': tuple, 'set': set}[sel['form']](names)
        what = 'dbfpack(names=%s) of fields %s' % (short(given), short(
            [(f['name'], f['t'], f['size'], f['deci']) for f in case['file']['fields']]))
        pack = dbfpack(src, names=given)
        c15.compare(pack, dbf, cols, what)
        require(pack.fn == ('' if case['source'] == 'bytesio' else path), '{}: fn {}', what,
                pack.fn)
        if fo is not None:
            require(not fo.closed, '{}: stream closed', what)
            fo.close()
        rich = rich or (len(cols) < len(dbf.names) and dbf.rows)
        cov.tagif(names != [n for n in dbf.names if n in names], 'names out of order')
        cov.tagif(len(cols) != len(set(names)), 'repeated field names')
        cov.tagif(dbf.ndeleted, 'deleted records')
    return bool(rich)


SUBS = [Sub('selections', cases, check, 5000, rule=RULE)]
