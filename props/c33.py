"""C33: what a workbook tells about itself is read as stored; encoding_override decides over the code page."""
import codecs

from hypothesis import strategies as st

from channelpack import xlrd
from core import Sub, Scratch, harness, require
import sheetgen as sg
import xlsw
import xlsxw
from c18 import compare_book

RULE = {
    'xls': 'A case is an xls workbook (BIFF 2 to 8) with or without a user name, country, code page and date system records, in '
           'either order, the code page recorded being right, missing, or (with encoding_override given) another one or unknown. '
           'User name, countries, code page, encoding, date system, version, and all cells are compared with the description. '
           'Non-trivial: a user name, country or override is present.',
    'xlsx': 'A case is an xlsx workbook with core properties (last modified by, creator, dates, others; some missing or empty), '
            'compared with user_name and props. Non-trivial: at least one property.'}

NAME = st.one_of(
    st.sampled_from(['me', '', 'Ada Lovelace', 'Åsa', 'Ωmega', '日本', 'Ж', 'a b  c', "O'Neil", 'x' * 50, 'ÿ', '😀', ' lead', '\xa0n']),
    st.text(st.characters(min_codepoint=32, max_codepoint=0xFFFF, exclude_categories=('Cs', 'Cc', 'Cn', 'Zl', 'Zp')),
            max_size=20))
facts = st.fixed_dictionaries({
    'user': st.one_of(st.none(), NAME, NAME), 'first': st.booleans(), 'fill': st.booleans(), 'wide': st.booleans(),
    'country': st.one_of(st.none(), st.tuples(st.sampled_from([1, 7, 46, 49, 81, 358, 981]),
                                              st.sampled_from([1, 2, 44, 46, 86, 961])).map(list)),
    'cp': st.sampled_from([None, None, 1252, 1251, 437, 10000, 32769, 9, 65000])})
cases = st.fixed_dictionaries({
    'book': xlsw.books([20, 21, 30, 40, 45, 50, 70, 80], tall=False), 'facts': facts,
    'over': st.sampled_from([0, 1]), 'fmt': st.booleans()})


def check(case, cov):
    with harness():
        f, spec = dict(case['facts']), case['book']
        ver = spec['x']['ver']
        over = None
        if ver >= 80:
            f['cp'] = None if f['cp'] is None else 1200
            over = 'cp1251' if case['over'] else None
        elif f['cp'] is not None or case['over']:
            # what is recorded is not what the text is written in
            over = xlsw.CODEPAGES[spec['x']['cp']]
        spec = dict(spec, x=dict(spec['x'], facts=f))
        w = xlsw.Writer(spec)
        path = Scratch.write('b.xls', w.blob)
    what = 'BIFF %d workbook' % ver
    kw = {} if over is None else {'encoding_override': over}
    book = xlrd.open_workbook(path, formatting_info=case['fmt'], logfile=open('/dev/null', 'w'), **kw)
    if not case['fmt']:
        compare_book(book, w.sheets, w.datemode, what)
    require(book.datemode == w.datemode, '{}: date mode {}', what, book.datemode)
    # version 2.0 and 2.1 differ in the cells only
    require(book.biff_version in ((20, 21) if ver == 20 else (ver,)), '{}: version {}', what, book.biff_version)
    user = w.user.rstrip() if f['user'] is not None else ''
    require(book.user_name == user, '{}: user name {}, expected {}', what, book.user_name, user)
    country = (0, 0) if f['country'] is None else tuple(f['country'])
    require(tuple(book.countries) == country, '{}: countries {}, expected {}', what, book.countries, country)
    if ver >= 80:
        require(book.codepage == 1200 or over and book.codepage is None, '{}: code page {}', what, book.codepage)
    else:
        cp = spec['x']['cp'] if f['cp'] is None else f['cp']
        require(book.codepage == cp, '{}: code page {}, expected {}', what, book.codepage, cp)
        enc = codecs.lookup(book.encoding).name
        want = codecs.lookup(over or xlsw.CODEPAGES[cp]).name
        require(enc == want, '{}: encoding {}, expected {}', what, enc, want)
    cov.tag('BIFF %d' % ver)
    cov.tagif(bool(over), 'override')
    return f['user'] is not None or f['country'] is not None or over is not None


PROPS = {'cp:lastModifiedBy': 'last_modified_by', 'dc:creator': 'creator', 'dcterms:modified': 'modified',
         'dcterms:created': 'created', 'dc:title': None, 'cp:keywords': None, 'dc:description': None, 'dcterms:issued': None}
xcases = st.fixed_dictionaries({
    'book': xlsxw.books, 'props': st.lists(st.tuples(st.sampled_from(sorted(PROPS)), NAME).map(list),
                                                       max_size=6, unique_by=lambda p: p[0])})


def check_xlsx(case, cov):
    with harness():
        props = case['props']
        spec = dict(case['book'], x=dict(case['book']['x'], props=bool(props), facts=props))
        w = xlsxw.Writer(spec)
        path = Scratch.write('b.xlsx', w.blob)
    book = xlrd.open_workbook(path)
    want = {PROPS[k]: v for k, v in props if PROPS[k]}
    require(book.props == want, 'core properties {}, expected {}', book.props, want)
    user = want.get('last_modified_by') or want.get('creator') or ''
    require((book.user_name or '') == user, 'user name {}, expected {}', book.user_name, user)
    require(book.datemode == w.datemode, 'date mode {}', book.datemode)
    cov.tagif(len(want) > 1, 'several')
    return bool(want)


SUBS = [Sub('xls', cases, check, 4000, rule=RULE['xls']), Sub('xlsx', xcases, check_xlsx, 2000, rule=RULE['xlsx'])]
