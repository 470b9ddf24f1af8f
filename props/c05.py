"""C05: duration and mindur drop exactly the parts that are too short (long), and mindur persists."""
from hypothesis import strategies as st

from core import Sub, require
import gens
import packmodel

RULE = ('A case is a pack and a history of mask changes (mask, &=, startstop, mask_reset, data, '
        'append_pack) mixed with duration calls and mindur settings whose required length is taken '
        'from the length of an existing part plus -1, 0 or 1 (or is free), with sample rates. '
        'After every step mask and parts are compared with the model. Non-trivial: some step '
        'dropped a part and some mask that a requirement applied to kept one.')

near = st.tuples(st.just('near'), st.integers(0, 40), st.sampled_from([-1, 0, 1]),
                 st.sampled_from([1, 1, 1, 2, 4, 10, 50, 100, 0.5, 0.1, 1000, 3]),
                 st.sampled_from(['duration', 'duration', 'max', 'mindur', 'default'])).map(list)
plain = packmodel.history(['mask', 'and', 'or', 'startstop', 'duration', 'mindur', 'reset', 'data',
                           'append'], max_size=1).map(lambda ops: ops[0])
cases = st.fixed_dictionaries({
    'n': gens.lengths,
    'cols': packmodel.cols(2),
    'ops': st.lists(st.one_of(near, near, plain, plain), min_size=1, max_size=10)})


def check(case, cov):
    d = packmodel.Driver(case)
    pack, m = d.pack, d.model
    dropped = kept = 0
    for i, op in enumerate(case['ops']):
        before = gens.runs_of(m.mask)
        what = 'op %d %s' % (i, op[0])
        if op[0] == 'near':
            if not before:
                d.apply(['reset'], what)
                d.observe(what, full=False)
                before = gens.runs_of(m.mask)
                if not before:
                    continue
            a, b = before[op[1] % len(before)]
            req = max(0, b - a + op[2])
            if op[4] == 'mindur':
                d.apply(['mindur', req], what)
            elif op[4] == 'default':
                pack.duration(req)
                m.mask = packmodel.drop_runs(m.mask, lambda k: k < req)
            else:
                dur = req / op[3] if op[3] != 1 else req
                d.apply(['duration', [dur, op[3]], op[4] == 'duration'], what)
            after = gens.runs_of(m.mask)
            dropped += len(after) < len(before)
            kept += len(after) > 0
            # a requirement met is met for good
            if op[4] == 'duration' and op[3] == 1:
                again = pack.duration(req)
                require(again.tolist() == m.mask, '{}: not idempotent: {}', what, again)
        else:
            d.apply(op, what)
            if m.mindur:
                cov.tag('mask renewed under mindur')
                kept += len(gens.runs_of(m.mask)) > 0
        d.observe(what, full=False)
    cov.tagif(dropped, 'part dropped')
    cov.tagif(m.n > 120, 'more than 120 elements')
    return bool(dropped and kept)


SUBS = [Sub('history', cases, check, 6000, rule=RULE)]
