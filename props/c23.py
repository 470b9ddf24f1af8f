"""C23: serial numbers of dates and dates convert into each other exactly, or are refused."""
import datetime
from fractions import Fraction

from hypothesis import strategies as st

from channelpack import xlrd
from channelpack.xlrd import xldate
from core import Sub, harness, require, raises

RULE = {
    'serials': ('A case is up to 20 serial numbers (whole days and fractions, near midnight, whole seconds and '
                'milliseconds, limits of both date systems, negative, too large) and a date mode, valid or not. '
                'xldate_as_datetime is compared with the moment computed in exact fractions (to the millisecond), '
                'xldate_as_tuple with the same to the nearest second, refused ones with the documented error. '
                'Non-trivial: a serial with whole and fractional part.'),
    'tuples': ('A case is up to 12 (year, month, day, hour, minute, second) tuples, valid or with one or more parts '
               'out of range, and a date mode: the serial number has to be the day count of the calendar plus the '
               'fraction, and convert back to the same tuple and datetime; others raise the documented error. '
               'Non-trivial: a valid date with a time.'),
    'days': ('A case is a run of 400 consecutive days in one date system, converted both ways and compared with the '
             'proleptic Gregorian calendar of datetime. Every case is non-trivial.')}

MAXDAY = (2958466, 2958466 - 1462)
BASE = (datetime.date(1899, 12, 30).toordinal(), datetime.date(1904, 1, 1).toordinal())

days = st.one_of(st.integers(0, 70), st.integers(0, 2958470), st.integers(36000, 46000),
                 st.sampled_from([0, 1, 2, 59, 60, 61, 62, 365, 366, 367, 1461, 1462, 1463, 2957003, 2957004, 2957005,
                                  2958464, 2958465, 2958466, 2958467]))
fracs = st.one_of(st.just(0.0), st.floats(0, 1, exclude_max=True),
                  st.integers(0, 86399).map(lambda s: s / 86400.0),
                  st.integers(0, 86399999).map(lambda s: s / 86400000.0),
                  st.sampled_from([0.5, 0.25, 0.999999, 0.99999, 0.9999999, 0.999995, 0.999994, 1e-9, 1e-6, 5.8e-6]),
                  st.tuples(st.integers(0, 86399), st.integers(-499, 499)).map(
                      lambda t: min(max((t[0] + t[1] / 1000.0) / 86400.0, 0.0), 1 - 2.0**-40)))
serial = st.one_of(st.tuples(days, fracs).map(lambda t: t[0] + t[1]), st.tuples(days, fracs).map(lambda t: t[0] + t[1]),
                   days, days.map(float), st.floats(-5, 0), st.integers(-10, 0),
                   st.floats(2950000, 1e9), st.floats(0, 2958466))
modes = st.sampled_from([0, 0, 1, 1, 0, 1, 0, 1, 2, -1])
serial_cases = st.fixed_dictionaries({'x': st.lists(serial, min_size=1, max_size=20), 'mode': modes})

part = st.one_of(st.integers(-1, 62), st.sampled_from([0, 1, 28, 29, 30, 31, 12, 13, 23, 24, 59, 60]))
good = st.tuples(st.one_of(st.integers(1900, 9999), st.integers(1900, 1906), st.sampled_from([1900, 1904, 2000, 2100,
                                                                                             2400, 9999])),
                 st.integers(1, 12), st.one_of(st.integers(1, 28), st.integers(1, 31), st.sampled_from([28, 29, 30, 31])),
                 st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list)
odd = st.tuples(st.one_of(st.integers(1890, 2030), st.sampled_from([0, 1899, 10000, -1])), part, part,
                part, part, part).map(list)


@st.composite
def almost(draw):
    t = list(draw(good))
    t[draw(st.integers(0, 5))] = draw(st.sampled_from([-1, 0, 12, 13, 24, 29, 30, 31, 32, 60, 1899, 10000]))
    return t


tuple_cases = st.fixed_dictionaries({'t': st.lists(st.one_of(good, good, good, odd, almost(),
                                                             st.just([0, 0, 0, 1, 2, 3])), min_size=1, max_size=12),
                                     'mode': modes})
day_cases = st.fixed_dictionaries({'start': st.integers(0, 2958466 // 400), 'mode': st.sampled_from([0, 1])})


def exact_seconds(x, unit):
    """The nearest multiple (in `unit` parts of a second) of the exact serial, None if (almost) in between."""
    v = Fraction(x) * 86400 * unit
    n = (v + Fraction(1, 2)).__floor__()
    if abs(v - n) > Fraction(1, 2) - Fraction(1, 10**4):
        return None
    return n


def check_serials(case, cov):
    mode = case['mode']
    rich = False
    for x in case['x']:
        what = 'serial %r, date mode %r' % (x, mode)
        if mode not in (0, 1):
            raises(xldate.XLDateBadDatemode, lambda: xlrd.xldate_as_tuple(x, mode), what)
            continue
        if x < 0:
            raises(xldate.XLDateNegative, lambda: xlrd.xldate_as_tuple(x, mode), what)
            continue
        whole = int(x)
        rich |= whole > 61 and whole != x and x < MAXDAY[mode]
        if whole >= MAXDAY[mode]:
            raises(xldate.XLDateTooLarge, lambda: xlrd.xldate_as_tuple(x, mode), what)
            cov.tag('too large')
            continue
        # the nearest second
        with harness():
            s = exact_seconds(x, 1)
        if s is not None and not (x < 1 and s == 86400):
            day, sec = divmod(s, 86400)
            hms = (sec // 3600, sec // 60 % 60, sec % 60)
            if day >= MAXDAY[mode]:
                raises(xldate.XLDateTooLarge, lambda: xlrd.xldate_as_tuple(x, mode), what)
            elif day and day < 61 and mode == 0:
                raises(xldate.XLDateAmbiguous, lambda: xlrd.xldate_as_tuple(x, mode), what)
                cov.tag('ambiguous')
            else:
                got = xlrd.xldate_as_tuple(x, mode)
                want = (0, 0, 0) + hms
                if day:
                    d = datetime.date.fromordinal(BASE[mode] + day)
                    want = (d.year, d.month, d.day) + hms
                require(tuple(got) == want, '{}: xldate_as_tuple is {}, expected {}', what, got, want)
                cov.tagif(day > whole, 'rounded up to the next day')
        # the nearest millisecond; 60 is a day that never was
        if 60 <= x < 61 and mode == 0:
            continue
        with harness():
            ms = exact_seconds(x, 1000)
            if ms is None or ms >= MAXDAY[mode] * 86400000:
                continue
            base = datetime.datetime(1904, 1, 1) if mode else datetime.datetime(1899, 12, 31 if x < 60 else 30)
            want = base + datetime.timedelta(milliseconds=ms)
        got = xlrd.xldate_as_datetime(x, mode)
        require(type(got) is datetime.datetime and got == want, '{}: xldate_as_datetime is {}, expected {}', what,
                got, want)
    return rich


def check_tuples(case, cov):
    mode = case['mode']
    rich = False
    for t in case['t']:
        t = tuple(t)
        what = '%r, date mode %r' % (t, mode)
        timeok = 0 <= t[3] < 24 and 0 <= t[4] < 60 and 0 <= t[5] < 60
        if timeok:
            f = xldate.xldate_from_time_tuple(t[3:])
            want = Fraction(t[3] * 3600 + t[4] * 60 + t[5], 86400)
            require(abs(Fraction(f) - want) < Fraction(1, 10**12), '{}: xldate_from_time_tuple is {}, expected {}',
                    what, f, float(want))
            if mode in (0, 1):
                back = xlrd.xldate_as_tuple(f, mode)
                require(tuple(back) == (0, 0, 0) + t[3:], '{}: time back as {}', what, back)
        else:
            raises(xldate.XLDateBadTuple, lambda: xldate.xldate_from_time_tuple(t[3:]), what)
        if mode not in (0, 1):
            raises(xldate.XLDateBadDatemode, lambda: xldate.xldate_from_date_tuple(t[:3], mode), what)
            continue
        if t[:3] == (0, 0, 0):
            require(xldate.xldate_from_date_tuple(t[:3], mode) == 0.0, '{}: not 0', what)
            if timeok:
                require(xldate.xldate_from_datetime_tuple(t, mode) == f, '{}: not the time alone', what)
            continue
        with harness():
            try:
                d = datetime.date(*t[:3])
            except ValueError:
                d = None
            n = d.toordinal() - BASE[mode] if d else None
        if d is None or d.year < 1900 or mode and n < 1:
            raises(xldate.XLDateBadTuple, lambda: xldate.xldate_from_date_tuple(t[:3], mode), what)
            raises(xldate.XLDateBadTuple, lambda: xldate.xldate_from_datetime_tuple(t, mode), what)
            cov.tag('bad date')
            continue
        if not mode and n < 61:
            raises((xldate.XLDateAmbiguous, xldate.XLDateBadTuple),
                   lambda: xldate.xldate_from_date_tuple(t[:3], mode), what)
            cov.tag('before 1900-03-01')
            continue
        got = xldate.xldate_from_date_tuple(t[:3], mode)
        require(type(got) is float and got == n, '{}: xldate_from_date_tuple is {}, expected {}', what, got, n)
        if not timeok:
            raises(xldate.XLDateBadTuple, lambda: xldate.xldate_from_datetime_tuple(t, mode), what)
            continue
        x = xldate.xldate_from_datetime_tuple(t, mode)
        require(abs(Fraction(x) - n - want) < Fraction(1, 10**9), '{}: xldate_from_datetime_tuple is {}', what, x)
        back = xlrd.xldate_as_tuple(x, mode)
        require(tuple(back) == t, '{}: serial {} back as {}', what, x, back)
        moment = xlrd.xldate_as_datetime(x, mode)
        require(moment == datetime.datetime(*t), '{}: serial {} back as {}', what, x, moment)
        rich |= any(t[3:])
    return rich


def check_days(case, cov):
    mode = case['mode']
    first = 1 if mode else 61
    for n in range(case['start'] * 400, case['start'] * 400 + 400):
        if not first <= n < MAXDAY[mode]:
            continue
        d = datetime.date.fromordinal(BASE[mode] + n)
        t = (d.year, d.month, d.day)
        what = 'day %d, date mode %d' % (n, mode)
        got = xlrd.xldate_as_tuple(n, mode)
        require(tuple(got) == t + (0, 0, 0), '{}: xldate_as_tuple is {}, expected {}', what, got, t)
        require(xldate.xldate_from_date_tuple(t, mode) == n, '{}: {} is not converted back', what, t)
        got = xlrd.xldate_as_datetime(float(n), mode)
        require(got == datetime.datetime(*t), '{}: xldate_as_datetime is {}, expected {}', what, got, t)
    return True


SUBS = [Sub('serials', serial_cases, check_serials, 6000, rule=RULE['serials']),
        Sub('tuples', tuple_cases, check_tuples, 6000, rule=RULE['tuples']),
        Sub('days', day_cases, check_days, 1500, thorough=15000, rule=RULE['days'])]
