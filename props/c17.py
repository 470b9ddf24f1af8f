"""C17: a dBase file cut short is never read as if it were complete."""
import io

from hypothesis import strategies as st

from channelpack import dbfpack
from core import Sub, Scratch, harness, require, short, Violation
import dbfgen
import c15

RULE = ('A case is a generated dBase file and a set of cut points (any byte offset from 0 to the end; '
        'near the end of header, field descriptors and records in particular). Reading the cut file, '
        'all fields or a selection, either raises or returns exactly what the whole file holds. '
        'Non-trivial: a cut inside the records.')

cases = st.fixed_dictionaries({
    'file': dbfgen.files(dup=False),
    'cuts': st.lists(st.one_of(
        st.tuples(st.just('frac'), st.integers(0, 1000)),
        st.tuples(st.just('record'), st.integers(0, 60), st.integers(-2, 2)),
        st.tuples(st.just('end'), st.integers(0, 12)),
        st.tuples(st.just('head'), st.integers(0, 700))).map(list), min_size=1, max_size=8),
    'sel': st.one_of(st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=4)),
    'source': st.sampled_from(['path', 'bytesio'])})


def check(case, cov):
    with harness():
        dbf = dbfgen.Dbf(case['file'])
        cols = list(range(len(dbf.names)))
        kw = {}
        if case['sel']:
            names = [dbf.names[i % len(dbf.names)] for i in case['sel']]
            cols = [c for c, nm in enumerate(dbf.names) if nm in names]
            kw['names'] = names
        lenrec = 1 + sum(f['size'] for f in case['file']['fields'])
    inside = False
    for cut in case['cuts']:
        with harness():
            total = len(dbf.intact)
            if cut[0] == 'frac':
                at = total * cut[1] // 1000
            elif cut[0] == 'record':
                at = dbf.headlen + lenrec * (cut[1] % (case['file']['n'] + 1)) + cut[2]
            elif cut[0] == 'end':
                at = total - cut[1]
            else:
                at = cut[1]
            at = max(0, min(at, total))
            blob = dbf.intact[:at]
            src = Scratch.write('cut.dbf', blob) if case['source'] == 'path' else io.BytesIO(blob)
        what = 'dbfpack%s of a file of %d bytes cut to %d' % (kw, total, at)
        try:
            pack = dbfpack(src, **kw)
        except Exception:
            if at == total:
                raise
            cov.tag('refused')
        else:
            try:
                c15.compare(pack, dbf, cols, what)
            except Violation:
                raise
            cov.tag('read in full')
        inside = inside or dbf.headlen < at < total
        cov.tagif(dbf.headlen < at < total, 'cut inside the records')
    return inside


SUBS = [Sub('cuts', cases, check, 4000, rule=RULE)]
