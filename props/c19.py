"""C19: every cell of an xls workbook (Excel 5, 95, 97 and later) is read as it was stored."""
from channelpack import xlrd
from core import Sub, Scratch, harness, short
import sheetgen as sg
import xlsw
from c18 import compare_book, read_packs, kinds

RULE = ('A case is a generated workbook (see C18) written as xls: BIFF 8, 7 or 5, in an OLE2 document with '
        'sectors in any order, short streams, other streams and embedded objects, or bare; numbers as NUMBER, '
        'RK (four encodings), MULRK or formula results; text in the shared string table cut into CONTINUE '
        'records at generated places, LABEL, RSTRING, formula STRING; code pages, merged ranges, charts, '
        'unknown records. All cells of all sheets are compared with the description, and the channels of '
        'sheetpack. Non-trivial: at least two columns with data of different kinds.')


def check(case, cov):
    with harness():
        w = xlsw.Writer(case)
        path = Scratch.write('b.xls', w.blob)
    book = xlrd.open_workbook(path, logfile=open('/dev/null', 'w'))
    compare_book(book, w.sheets, w.datemode, 'xls %s' % short(case['x']))
    read_packs(path, w, cov, case['x']['num'] % 2 == 0)
    cov.tag('BIFF%d' % w.ver)
    cov.tagif(len(w.sheets) > 1, 'several worksheets')
    cov.tagif(w.datemode, '1904 dates')
    cov.tagif(any(s.nrows > 99 for s in w.sheets), 'tall')
    cov.tagif(case['x']['cutsst'] and w.ver == 80 and len(w.sst) > 5, 'string table in CONTINUE records')
    cov.tagif(case['x']['big'], 'long string')
    cov.tagif(len(w.blob) > 7000000, 'extended master allocation table')
    return kinds(w)


def check_strings(case, cov):
    check(case, cov)
    with harness():
        n = xlsw.Writer(case).sst_records().count(b'\x3c\x00')
    return n > 1


FAR = ('Few cells far away, rows of up to 256 cells (MULRK and MULBLANK of any length), columns of up to 65,536 cells, with '
       'as many different texts. Non-trivial: beyond row 127 or column 127.')


def check_far(case, cov):
    check(case, cov)
    with harness():
        far = max(sg.farthest(case['sheets'][0]))
        cov.tagif(far > 32767, 'beyond row 32767')
    return far > 127


SUBS = [Sub('books', xlsw.books([80, 80, 80, 70, 50]), check, 2400, rule=RULE),
        Sub('strings', xlsw.stringbooks(), check_strings, 1600,
            rule='BIFF 8 with text only: the string table is cut into CONTINUE records at generated places '
                 '(within strings, runs, phonetic data). Non-trivial: at least two cuts.'),
        Sub('far', xlsw.farbooks([80, 80, 80, 70, 50]), check_far, 120, rule=FAR)]
