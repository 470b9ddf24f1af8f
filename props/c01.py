"""C01: data and names only ever hold int keys (and 1d arrays), and act as dicts."""
import numpy as np
from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, Violation, short
import gens

RULE = ('A case is a ChannelPack built from generated dicts and a generated history of up to 14 '
        'mapping operations on its data and names (item assignment, update with a dict / pairs / '
        'an iterator / a view, |=, setdefault, del, pop, clear, replacing the attribute), valid and '
        'invalid ones mixed. Non-trivial: at least one accepted and one rejected operation, or an '
        'operation fed from a one-shot iterator.')

GOODKEYS = st.integers(-3, 9) | st.integers(0, 2**70)
BADKEYS = st.sampled_from([['s', 'a'], ['s', '1'], ['f', 1.0], ['f', 2.5], ['n'], ['t'], ['np', 3],
                           ['s', '']])
good_val = st.one_of(
    st.builds(lambda c, n, how: {'c': c, 'n': n, 'how': how}, gens.column(gens.ALLKINDS), st.integers(0, 6),
              st.sampled_from(['arr', 'arr', 'list', 'tuple', 'range', 'view'])))
bad_val = st.sampled_from(['scalar', 'str', 'nested', 'arr0', 'arr2', 'none', 'emptynested', 'arr3', 'row',
                           'column', 'rowlist', 'columnlist', 'empty2'])


def key_of(k):
    if isinstance(k, int):
        return k
    return {'s': lambda: k[1], 'f': lambda: k[1], 'n': lambda: None, 't': lambda: (1,),
            'np': lambda: np.int64(k[1])}[k[0]]()


def val_of(target, v):
    """(object given, expected array or None when it must be rejected)"""
    if target == 'names':
        return v, v
    if isinstance(v, str):
        return {'scalar': 3.5, 'str': 'abc', 'nested': [[1, 2], [3, 4]],
                'arr0': np.array(4), 'arr2': np.zeros((2, 3)), 'none': None,
                'emptynested': [[], []], 'arr3': np.zeros((1, 1, 1)), 'row': np.ones((1, 3)),
                'column': np.ones((3, 1)), 'rowlist': [[1, 2]], 'columnlist': [['a'], ['b']],
                'empty2': np.ones((0, 3))}[v], None
    arr = gens.build(v['c'], v['n'])
    how = v['how']
    if how == 'arr':
        return arr, arr.copy()
    if how == 'view':
        big = np.concatenate([arr, arr])[:v['n']]
        return big, arr.copy()
    if how == 'range':
        return range(v['n']), np.array(range(v['n']))
    if v['c']['k'] in 'OD':
        return arr, arr.copy()        # lists of mixed objects are numpy's own business
    seq = arr.tolist()
    return (seq if how == 'list' else tuple(seq)), np.array(seq)


@st.composite
def pairs(draw, target):
    good = good_val if target == 'data' else gens.names_any
    n = draw(st.integers(0, 4))
    flavour = draw(st.sampled_from(['ok', 'ok', 'ok', 'badkey', 'badval' if target == 'data'
                                    else 'ok']))
    out = [[draw(GOODKEYS), draw(good)] for _ in range(n)]
    if flavour == 'badkey':
        out.insert(draw(st.integers(0, n)), [draw(BADKEYS), draw(good)])
    elif flavour == 'badval':
        out.insert(draw(st.integers(0, n)), [draw(GOODKEYS), draw(bad_val)])
    return out


@st.composite
def op(draw):
    target = draw(st.sampled_from(['data', 'names']))
    name = draw(st.sampled_from(['set', 'set', 'update', 'update', 'update', 'ior', 'setdefault',
                                 'del', 'pop', 'clear', 'replace', 'replace', 'kwargs']))
    if name in ('update', 'replace', 'ior'):
        form = draw(st.sampled_from(['dict', 'pairs', 'iter', 'gen', 'zip', 'tuplepairs', 'items']))
        return [name, target, form, draw(pairs(target))]
    if name == 'set':
        return [name, target, '', draw(pairs(target).filter(lambda p: len(p) >= 1))[:1]]
    if name == 'setdefault':
        return [name, target, '', draw(pairs(target).filter(lambda p: len(p) >= 1))[:1]]
    return [name, target, '', draw(st.integers(0, 20))]


case = st.fixed_dictionaries({
    'data': pairs('data').filter(lambda p: all(isinstance(k, int) and not isinstance(v, str)
                                               for k, v in p)),
    'names': pairs('names').filter(lambda p: all(isinstance(k, int) for k, v in p)),
    'ops': st.lists(op(), min_size=1, max_size=14)})


def same_dict(got, model, target):
    if set(got) != set(model) or len(got) != len(model):
        return False
    for k in model:
        if target == 'names':
            if got[k] != model[k]:
                return False
        else:
            g = got[k]
            if not isinstance(g, np.ndarray) or g.ndim != 1 or g.dtype != model[k].dtype \
                    or not gens.same(g, model[k]):
                return False
    return all(isinstance(k, int) for k in got)


def observe(pack, model, what):
    for target in ('data', 'names'):
        got = getattr(pack, target)
        require(isinstance(got, dict), '{}: {} is not a dict', what, target)
        require(same_dict(dict(got), model[target], target),
                '{}: {} is {}, expected {}', what, target, dict(got), model[target])
    for k in model['data']:
        require(gens.same(pack(k, nof='ignore'), model['data'][k]), '{}: pack({})', what, k)


def check(case, cov):
    with harness():
        d = {k: val_of('data', v) for k, v in case['data']}
        model = {'data': {k: v[1] for k, v in d.items()},
                 'names': {k: v for k, v in case['names']}}
    pack = ChannelPack({k: v[0] for k, v in d.items()}, dict(model['names']))
    observe(pack, model, 'new pack')
    accepted = rejected = oneshot = 0
    for i, (name, target, form, arg) in enumerate(case['ops']):
        what = 'op %d %s %s %s' % (i, target, name, form)
        mapping = getattr(pack, target)
        if name in ('del', 'pop', 'clear'):
            present = sorted(model[target])
            if name == 'clear':
                mapping.clear()
                model[target].clear()
            elif present and arg % 3:
                k = present[arg % len(present)]
                if name == 'del':
                    del mapping[k]
                    del model[target][k]
                else:
                    got = mapping.pop(k)
                    want = model[target].pop(k)
                    require(gens.same(got, want) if target == 'data' else got == want,
                            '{}: pop returned {}, expected {}', what, got, want)
            observe(pack, model, what)
            continue
        if name == 'kwargs':
            val = [1, 2] if target == 'data' else 'x'
            try:
                mapping.update(**{'abc': val})
            except TypeError:
                rejected += 1
            else:
                raise Violation('%s: keyword names accepted as keys' % what)
            observe(pack, model, what)
            continue
        with harness():
            prs = []
            ok = True
            after = dict(model[target]) if name != 'replace' else {}
            for k, v in arg:
                key = key_of(k)
                given, want = val_of(target, v)
                prs.append((key, given))
                if not isinstance(key, int) or want is None:
                    ok = False
                elif name == 'setdefault':
                    after.setdefault(key, want)
                else:
                    after[key] = want
            if name == 'setdefault' and prs[0][0] in model[target] and not ok:
                continue              # an unused invalid default: unspecified
            if form in ('dict', 'items', 'zip', 'ior') and not ok and len(
                    {repr(k) for k, _ in prs}) != len(prs):
                continue              # a later duplicate may hide the invalid pair
            if form in ('dict', 'items'):
                if not ok and (len({k for k, _ in prs}) != len(prs)):
                    continue
                src = dict(prs)
                src = src.items() if form == 'items' else src
            elif form == 'iter':
                src = iter(prs)
            elif form == 'gen':
                src = ((k, v) for k, v in prs)
            elif form == 'zip':
                src = zip([k for k, _ in prs], [v for _, v in prs])
            elif form == 'tuplepairs':
                src = tuple([k, v] for k, v in prs)
            else:
                src = list(prs)
            oneshot += form in ('iter', 'gen', 'zip') and len(prs) > 0
        try:
            if name == 'set':
                mapping[prs[0][0]] = prs[0][1]
            elif name == 'setdefault':
                mapping.setdefault(*prs[0])
            elif name == 'update':
                mapping.update(src)
            elif name == 'ior':
                if target == 'data':
                    pack.data |= src
                else:
                    pack.names |= src
            else:
                setattr(pack, target, src)
        except (TypeError, ValueError) as exc:
            require(not ok, '{}: valid items {} rejected: {}', what, prs, exc)
            rejected += 1
        else:
            require(ok, '{}: invalid items {} accepted', what, prs)
            model[target] = after
            accepted += 1
        observe(pack, model, what)
    cov.tagif(oneshot, 'one-shot iterator')
    cov.tagif(rejected, 'has rejection')
    cov.tagif(accepted > 3, 'more than 3 accepted')
    return bool((accepted and rejected) or oneshot)


SUBS = [Sub('history', case, check, 6000, rule=RULE)]
