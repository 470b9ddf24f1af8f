"""C20: every cell of an old xls file (Excel 2, 3, 4 and 4 workbooks) is read as it was stored."""
from core import Sub
import c19
import xlsw

RULE = ('A case is a generated worksheet (or Excel 4 workbook of 1 to 3 sheets) written as BIFF 2 (with XF '
        'records, extended XF indexes, or with cell attributes only), 3, 4 or 4W in one of ten code pages; '
        'see C19 for cell kinds. All cells are compared with the description, and the channels of sheetpack. '
        'Non-trivial: at least two columns with data of different kinds.')

SUBS = [Sub('books', xlsw.books([45, 40, 30, 21, 20]), c19.check, 2400, rule=RULE),
        Sub('far', xlsw.farbooks([45, 40, 30, 21, 20]), c19.check_far, 60, rule=c19.FAR)]
