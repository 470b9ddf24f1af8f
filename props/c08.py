"""C08: name() gives the channel's name, its first word, a regex hit or the fallback string."""
import re

from hypothesis import strategies as st

from channelpack import ChannelPack
from core import Sub, harness, require, raises
import gens

RULE = ('A case is a pack with generated names (several words, unicode, any white space) and queries of '
        'name() by key, name and fallback string with every form of firstwordonly and fallback. '
        'Non-trivial: at least one first-word or regex query on a name of several words.')

PATTERNS = [r'\w+', r'[^\s]+', r'\((.*?)\)', r'(\w)(\w)', r'\d+', r'[A-Z]+', r'.', r'^.{3}', r'x*',
            r'\S+$', ChannelPack.id_rx]
word = st.one_of(gens.identifiers, st.sampled_from(['(km/h)', '[C]', '5', 'x*y', 'åäö', 'ch2']))
names = st.one_of(
    gens.names_any,
    st.lists(word, min_size=1, max_size=4).flatmap(
        lambda ws: st.sampled_from([' ', '  ', '\t', ' - ', '\n']).map(lambda s: s.join(ws))),
    st.tuples(st.sampled_from(['', ' ', '\t ']), word, st.sampled_from(['', ' ', ' x'])).map(
        ''.join))
query = st.fixed_dictionaries({
    'by': st.sampled_from(['key', 'key', 'name', 'fb', 'absent']),
    'i': st.integers(0, 20),
    'fwo': st.one_of(st.sampled_from([None, False, True, True, None, False, True, True, 1, 3.5, [1], {'a': 1}]),
                     st.sampled_from(PATTERNS)),
    'fallback': st.sampled_from([None, False, False, False, True] * 4 + [1, 'x', [0]]),
})


@st.composite
def cases(draw):
    keys = draw(st.lists(gens.keys, min_size=1, max_size=5, unique=True))
    nm = [[k, draw(names)] for k in keys if draw(st.integers(0, 8))]
    return {'keys': keys, 'names': nm, 'prefix': draw(gens.prefixes),
            'queries': draw(st.lists(query, min_size=1, max_size=12))}


def check(case, cov):
    with harness():
        names = {k: v for k, v in case['names']}
        data = {k: [k, k + 1] for k in case['keys']}
    pack = ChannelPack(data, dict(names))
    pack.FALLBACK_PREFIX = case['prefix']
    rich = False
    for i, q in enumerate(case['queries']):
        with harness():
            key = case['keys'][q['i'] % len(case['keys'])]
            ch = key
            if q['by'] == 'name':
                if list(names.values()).count(names.get(key)) != 1:
                    continue
                ch = names[key]
            elif q['by'] == 'fb':
                ch = case['prefix'] + str(key)
                owners = [k for k in names if names[k] == ch]
                if len(owners) > 1:
                    continue
                if owners:
                    key = owners[0]
            elif q['by'] == 'absent':
                ch = max(case['keys']) + 1 + q['i']
            kwargs = {}
            if q['fwo'] is not None:
                kwargs['firstwordonly'] = q['fwo']
            if q['fallback'] is not None:
                kwargs['fallback'] = q['fallback']
        what = 'name(%r, %r) with names %r' % (ch, kwargs, names)

        def get():
            return pack.name(ch, **kwargs)

        if q['by'] == 'absent':
            raises(KeyError, get, what)
        elif q['fallback'] is True:
            got = get()
            require(got == case['prefix'] + str(key), '{} gave {}', what, got)
            cov.tag('fallback')
        elif q['fallback']:
            raises(TypeError, get, what)
            cov.tag('invalid argument')
        elif key in names and q['fwo'] and q['fwo'] is not True and not isinstance(q['fwo'], str):
            raises(TypeError, get, what)
            cov.tag('invalid argument')
        elif key not in names and q['fwo'] and not isinstance(q['fwo'], (bool, str)):
            raises((KeyError, TypeError), get, what)
        elif key not in names:
            raises(KeyError, get, what)
        else:
            name = names[key]
            fwo = q['fwo']
            if not fwo:
                require(get() == name, '{} gave {}', what, get())
                cov.tag('plain')
            elif fwo is True:
                words = name.split()
                if not words:
                    continue                     # no word to return: unspecified
                require(get() == words[0], '{} gave {}', what, get())
                rich = rich or len(words) > 1
                cov.tag('first word')
            else:
                hits = re.findall(fwo, name)
                if hits:
                    require(get() == hits[0], '{} gave {}', what, get())
                    rich = rich or len(name.split()) > 1
                    cov.tag('regex hit')
                else:
                    raises(ValueError, get, what)
                    cov.tag('regex miss')
        require(dict(pack.names) == names and sorted(pack.data) == sorted(data),
                '{} altered the pack', what)
    return rich


SUBS = [Sub('names', cases(), check, 10000, rule=RULE)]
