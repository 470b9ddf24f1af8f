"""C07: records are the channels side by side: right fields, right order, right rows."""
import keyword

import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, raises
import gens

RULE = ('A case is a pack with generated names (valid and invalid ones, names equal to another '
        'channel\'s fallback string, partial names, any insertion order), a mask, a nof setting, and '
        'the records of every combination of part, nof and fallback are compared with the channels '
        'by key. Non-trivial: two or more channels and at least two records in some view.')


@st.composite
def cases(draw):
    keys = draw(st.lists(gens.keys, min_size=0, max_size=6, unique=True))
    prefix = draw(gens.prefixes)
    cols = [[k, draw(gens.column(gens.ALLKINDS))] for k in keys]
    flavour = draw(st.sampled_from(['valid', 'valid', 'valid', 'fallbacklike', 'any', 'none',
                                    'partial']))
    names = []
    if flavour == 'valid':
        ids = draw(st.lists(gens.identifiers, min_size=len(keys), max_size=len(keys), unique=True))
        names = [[k, i] for k, i in zip(keys, ids)]
    elif flavour == 'fallbacklike' and keys:
        perm = draw(st.permutations(keys))
        names = [[k, prefix + str(p)] for k, p in zip(keys, perm)]
    elif flavour == 'any':
        names = [[k, draw(gens.names_any)] for k in keys]
    elif flavour == 'partial':
        ids = draw(st.lists(gens.identifiers, min_size=len(keys), max_size=len(keys), unique=True))
        names = [[k, i] for k, i in zip(keys, ids)][:draw(st.integers(0, len(keys)))]
        if draw(st.integers(0, 4)) == 0:
            names.append([draw(st.integers(20, 30)), 'ghost'])
    names = draw(st.permutations(names))
    return {'n': draw(st.one_of(gens.small_lengths, gens.lengths)), 'cols': cols, 'names': names,
            'prefix': prefix, 'mask': draw(gens.bits),
            'nof': draw(st.sampled_from(['nan', 'filter', None])),
            'interleave': draw(st.booleans())}


def valid_fields(fields):
    return (len(set(fields)) == len(fields)
            and all(f.isidentifier() and not keyword.iskeyword(f) and not f.startswith('_')
                    for f in fields))


def view(ref, mask, nof):
    marr = np.array(mask, dtype=bool)
    if nof == 'filter':
        return list(ref[marr])
    if nof == 'nan':
        hole = float('nan') if ref.dtype.kind in 'iufc' else None
        vals = ref.astype(float) if ref.dtype.kind in 'iu' else ref
        return [v if m else hole for v, m in zip(list(vals), mask)]
    return list(ref)


def check(case, cov):
    with harness():
        n = case['n']
        data = {k: gens.build(c, n) for k, c in case['cols']}
        names = {k: v for k, v in case['names']}
        mask = gens.bools(case['mask'], n) if data else []
        ref = {k: a.copy() for k, a in data.items()}
        runs = gens.runs_of(mask)
    pack = ChannelPack(data, dict(names))
    pack.FALLBACK_PREFIX = case['prefix']
    pack.mask = np.array(mask, dtype=bool)
    pack.nof = case['nof']
    many = False
    for fallback in (False, True):
        fkeys = sorted(ref) if fallback else sorted(names)
        fields = [case['prefix'] + str(k) for k in fkeys] if fallback else [names[k] for k in fkeys]
        modes = [(None, None), (None, 'nan'), (None, 'filter'), (None, 'ignore')]
        modes += [(p, nof) for p in sorted({0, len(runs) // 2, len(runs) - 1})
                  if 0 <= p < len(runs) for nof in (None, 'nan')]
        for part, nof in modes:
            what = 'records(part=%r, nof=%r, fallback=%r) with fields %r' % (part, nof, fallback,
                                                                            fields)

            def get():
                return list(pack.records(part=part, nof=nof, fallback=fallback))

            if not valid_fields(fields):
                raises(ValueError, get, what)
                cov.tag('invalid names')
                continue
            if not all(k in ref for k in fkeys):
                raises(KeyError, get, what)
                continue
            if part is not None:
                a, b = runs[part]
                want = [list(ref[k][a:b]) for k in fkeys]
            else:
                want = [view(ref[k], mask, nof or case['nof']) for k in fkeys]
            if case['interleave'] and part is None and nof is None:
                # a generator works on its own
                one, two = (pack.records(fallback=fallback), pack.records(fallback=fallback))
                got = []
                for rec in one:
                    other = next(two)
                    require(gens.same(rec, other), '{}: two generators differ', what)
                    got.append(rec)
            else:
                got = get()
            rows = len(want[0]) if want else 0
            require(len(got) == rows, '{}: {} records, expected {}', what, len(got), rows)
            for i, rec in enumerate(got):
                require(isinstance(rec, tuple) and list(rec._fields) == fields,
                        '{}: fields {}', what, getattr(rec, '_fields', rec))
                row = [w[i] for w in want]
                require(gens.same(list(rec), row), '{}: record {} is {}, expected {}', what, i,
                        rec, row)
                if i == 0:
                    for f, v in zip(fields, row):
                        require(gens.eq1(getattr(rec, f), v), '{}: field {}', what, f)
            if len(fields) > 1 and rows > 1:
                many = True
        if len(runs) and fields and valid_fields(fields) and all(k in ref for k in fkeys):
            raises(IndexError, lambda: list(pack.records(part=len(runs), fallback=fallback)),
                   'records of a part out of range')
    cov.tagif(set(names.values()) & {case['prefix'] + str(k) for k in ref},
              'a name equals a fallback string')
    cov.tagif(names and set(names) != set(ref), 'names and data not aligned')
    cov.tagif(runs and len(runs) > 1, 'several parts')
    return many


SUBS = [Sub('records', cases(), check, 5000, rule=RULE)]
