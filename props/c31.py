"""C31: the formatting of every cell is read as stored."""
from channelpack import xlrd
from core import Sub, Scratch, harness, require
import sheetgen as sg
import xlsmeta
from c30 import attrs, equal, check_formats

RULE = ('A case is an xls workbook (BIFF 2 to 8) with generated fonts, number formats, XF records (every field over its full '
        'width), palette and styles. Opened with formatting_info, the fonts, XFs, format strings, colours and style names of '
        'the book, and the XF of every cell, are compared with the description. Non-trivial: at least two XFs differ, and a '
        'cell uses one.')

COMMON = ('000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF 800000 008000 000080 808000 800080 008080 C0C0C0 808080 '
          '9999FF 993366 FFFFCC CCFFFF 660066 FF8080 0066CC CCCCFF 000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF '
          '00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC CC99FF %s 3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696 '
          '003366 339966 003300 333300 993300 993366 333399 333333')


def palette(ver):
    hexs = (COMMON % ('FFCC99' if ver >= 80 else 'E3E3E3')).split()
    if ver < 50:
        hexs = hexs[:16]
    rgb = [tuple(int(h[i:i + 2], 16) for i in (0, 2, 4)) for h in hexs]
    out = dict(enumerate(rgb[:8]))
    out.update((8 + i, c) for i, c in enumerate(rgb))
    out[8 + len(rgb)] = out[9 + len(rgb)] = out[0x51] = out[0x7FFF] = None
    return out


def check(case, cov):
    with harness():
        w = xlsmeta.Writer(case)
        path = Scratch.write('b.xls', w.blob)
    book = xlrd.open_workbook(path, formatting_info=True, logfile=open('/dev/null', 'w'))
    what = 'BIFF %d' % w.ver
    # fonts
    equal(len(book.font_list), len(w.wantfonts), what + ': number of fonts')
    for i, d in enumerate(w.wantfonts):
        if d is not None:           # the fifth font does not exist
            attrs(book.font_list[i], d, '%s: font %d' % (what, i))
    # formats
    for key, code in w.style_table():
        if code is not None:
            equal(book.format_map[key].format_str, code, '%s: format %d' % (what, key))
            equal(book.format_map[key].format_key, key, '%s: key of format %d' % (what, key))
        elif key in sg.BUILTIN and not (case['x']['builtin'] and key in (5, 14, 20, 46)):
            equal(book.format_map[key].format_str, sg.BUILTIN[key], '%s: standard format %d' % (what, key))
    # XFs
    if w.ver != 20:
        equal(len(book.xf_list), len(w.wantxfs), what + ': number of XFs')
        for i, d in enumerate(w.wantxfs):
            attrs(book.xf_list[i], {k: v for k, v in d.items() if v is not None}, '%s: XF %d' % (what, i))
    # colours
    want = palette(w.ver)
    for i, rgb in enumerate(w.wantpalette or ()):
        want[8 + i] = rgb
    equal(book.colour_map, want, what + ': colour map')
    equal(list(map(tuple, book.palette_record)), w.wantpalette or [], what + ': palette')
    # styles
    equal(book.style_name_map, w.wantstyles, what + ': styles')
    used = 0
    for i, wants in enumerate(w.wants):
        ws = book.sheet_by_index(i)
        check_formats(ws, wants, w.ver, book, '%s, sheet %d' % (what, i))
        used += len(wants['xf']) + len(wants['attr'])
    cov.tag(what)
    cov.tagif(w.wantpalette, 'palette')
    cov.tagif(w.wantstyles, 'styles')
    cov.tagif(len(w.wantfonts) > 5, 'more than four fonts')
    return used > 0 and (w.ver == 20 or len(set(map(str, w.m['look']['xfs']))) > 1)


SUBS = [Sub('formatting', xlsmeta.books([80, 80, 80, 70, 50, 40, 30, 21, 20], plain_layout=True, tall=False), check, 3000,
            rule=RULE)]
