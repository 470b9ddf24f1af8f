"""Workbooks in any of the formats read."""
from hypothesis import strategies as st

import sheetgen as sg
import xlsw
import xlsxw

FORMATS = ['xlsx', 'xlsx', 80, 80, 70, 50, 45, 40, 30, 21, 20]


@st.composite
def books(draw, formats=FORMATS, maxsheets=2, **kw):
    fmt = draw(st.sampled_from(formats))
    case = {'fmt': fmt, 'sheets': draw(st.lists(sg.sheet(**kw), min_size=1, max_size=maxsheets)),
            'styles': draw(sg.styles), 'date1904': draw(st.sampled_from([0, 0, 1]))}
    if fmt == 'xlsx':
        case['x'] = draw(xlsxw.options)
    else:
        case['x'] = draw(st.fixed_dictionaries(dict(
            xlsw.options, ver=st.just(fmt), raw=st.sampled_from([0, 0, 1]), big=st.none(),
            frag=st.integers(0, 39))))
    return case


def writer(case):
    if case['fmt'] == 'xlsx':
        return xlsxw.Writer(case)
    return xlsw.Writer(case)


def suffix(case):
    return '.xlsx' if case['fmt'] == 'xlsx' else '.xls'
