"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand: python3 tools/gen.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))


PACK = ['channelpack/pack.py']
UTIL = ['channelpack/datautils.py', 'channelpack/pack.py']
TEXT = ['channelpack/readtext.py']
DBF = ['channelpack/dbf.py', 'channelpack/readtext.py']

prop('C01', 'Data and names are dicts with int keys only; data values are 1d arrays',
     'Whatever mapping operations are performed on the data or the names of a pack (construction, item assignment, update from a mapping, pairs or a one-shot iterator, |=, setdefault, deletions, replacing the attribute), every key is an int and every data value is a one-dimensional numpy array holding exactly the values given, as for a plain dict. '
     'An operation with a key that is not an int, or (for data) a value that is not one-dimensional, raises and changes nothing.',
     ['histories', 'inputs'], 'all histories of mapping operations, valid and invalid, with all argument forms dict accepts',
     'Tests sample single calls; the guarantee is over sequences of operations and every argument form (iterators, views, keyword arguments, |=).',
     PACK, [('IntKeyDict / NpDict overriding __setitem__, update, setdefault, __ior__', 'channelpack/pack.py:15-140')],
     ['dict(pack.data), dict(pack.names)'], 'model-based PBT: mapping history against a plain dict',
     'Random histories (up to 14 operations) against a plain-dict reference model; nothing proved beyond what was generated.')
prop('C02', 'A channel reference resolves to key, then name, then fallback string, or fails',
     'Calling a pack, name() and every other lookup resolve a reference the same way: an int is the key; a string is the key of the channel with that name, else of the channel whose fallback string (FALLBACK_PREFIX, a valid Python name, followed by its key, in full) it is. '
     'Anything else raises KeyError, and a lookup never returns the data of another channel.',
     ['inputs', 'histories'], 'all packs, names (colliding with fallback strings, partial, changed later), prefixes and references',
     'Collisions between names, fallback strings, prefixes with regexp characters and partial names are combinatorial; tests use a handful of tidy names.',
     PACK, [('_datakey: key, name, fallback regexp', 'channelpack/pack.py:533')], ['pack(ref)', 'pack.name(ref)', 'KeyError'],
     'model-based PBT with adversarial names and references',
     'Random packs and references against an independent resolution rule.')
prop('C03', 'Mask, parts and all views of the channels agree over any history',
     'After any history of masking and data operations, the parts are exactly the maximal runs of True in the mask, in order; a channel called plainly is the data unchanged, with part=n the elements of that run, with nof="filter" the elements where the mask is True, and with nof="nan" the data with the others replaced by nan (None where the type has no nan). '
     'No operation on mask or views changes the data, and an invalid part or nof raises.',
     ['histories', 'inputs'], 'all sequences of mask assignments, startstop, duration, mindur, mask_reset, nof, data replacement and appending, on channels of all types and lengths',
     'Tests check a few fixed masks of a few elements; consistency must hold after any history and at array boundaries, for all dtypes.',
     UTIL, [('slicelist from the mask', 'channelpack/datautils.py'), ('__call__ with part and nof', 'channelpack/pack.py:432')],
     ['pack.mask', 'pack.parts()', 'pack(ch, part, nof)'], 'stateful model-based PBT against a run-length reference model',
     'Random histories (up to 12 operations, 0 to 2500 elements) against an independent pure-Python model.')
prop('C04', 'startstop is the start/stop trigger state machine',
     'startstop returns, for every element, whether a start trigger has occurred up to and including it with no stop trigger since (a stop at the same element as a start wins), and unless apply is False the mask becomes the old mask AND that result. '
     'With apply=False the pack is unchanged.',
     ['inputs', 'histories'], 'all pairs of trigger sequences (bools, or any values taken as truth values), lengths, masks and repeated calls',
     'Tests use a few hand-made trigger sequences; overlapping, repeated, boundary triggers and non-bool sequences explode combinatorially.',
     UTIL, [('startstop_bool', 'channelpack/datautils.py'), ('startstop', 'channelpack/pack.py:372')],
     ['return value of startstop', 'pack.mask'], 'PBT against the recurrence on = (on or start) and not stop',
     'Random trigger sequences (up to thousands of elements) against an element-by-element recurrence.')
prop('C05', 'duration and mindur drop exactly the parts that are too short (or too long)',
     'duration(n, samplerate, mindur) sets False in the mask exactly the runs of True shorter than int(n * samplerate) elements (longer, if mindur is False) and nothing else. '
     'A set mindur attribute keeps removing the runs shorter than it after every later change of the mask until it is set back to None.',
     ['inputs', 'histories'], 'all masks, required lengths, sample rates and histories of mask changes after mindur is set',
     'Off-by-one at run boundaries and at the ends of the array, and persistence over later operations, need many masks and histories; tests have a few.',
     UTIL, [('duration_bool', 'channelpack/datautils.py'), ('__setattr__ applying mindur', 'channelpack/pack.py:228')],
     ['pack.mask', 'pack.parts()'], 'stateful model-based PBT, lengths drawn around existing runs',
     'Random histories with required lengths at run length -1/0/+1, against a run-length model.')
prop('C06', 'The mask starts and restarts all True with the length of the data',
     'On construction, whenever data is set and on mask_reset, the mask becomes all True (whatever the values are: nan, None, objects) with the length of the channel with the lowest key, and is an independent array of bool.',
     ['inputs', 'histories'], 'all data sets (types, nan, None, empty, unequal lengths) set by any means at any moment of a history',
     'Tests reset masks on tidy numeric data; values not equal to themselves, other packs\' data and emptied packs are not sampled.',
     PACK, [('mask_reset', 'channelpack/pack.py:321'), ('__setattr__ for data', 'channelpack/pack.py:228')], ['pack.mask'],
     'PBT over data sets and life cycles, direct oracle', 'Random data sets and histories; direct comparison with np.ones.')
prop('C07', 'records are the channels side by side: right fields, order and rows',
     'records() gives one tuple per row with one field per named channel (every channel with fallback=True) in key order, the field values being those the same call per channel gives (for part, nof and fallback alike). '
     'Field names are the names of the channels (or fallback strings with fallback=True); names that cannot be field names raise ValueError.',
     ['inputs', 'configurations'], 'all packs, insertion orders, names (colliding, invalid, partial), masks, part, nof and fallback combinations',
     'A column swapped or misnamed only with some insertion order or name collision; tests use one or two packs.',
     PACK, [('records', 'channelpack/pack.py:480')], ['list(pack.records(...))'], 'PBT: differential against per-channel access',
     'Random packs; each record compared by key with the channels.')
prop('C08', 'name() is the channel name, its first word, a regexp hit, or the fallback string',
     'name(ch) is the name set for the channel, with firstwordonly=True its first white-space separated word, with a pattern string the first match of it (ValueError if there is none); with fallback=True it is the fallback string, prefix and key. '
     'Other values of these arguments raise TypeError, and the names themselves are not changed.',
     ['inputs'], 'all names (unicode, white space, empty), reference forms, patterns and option combinations',
     'Tests use a few ASCII names.', PACK, [('name', 'channelpack/pack.py:577')], ['pack.name(...)'],
     'PBT against an independent rule', 'Random names and queries against an independent implementation.')
prop('C09', 'append_pack concatenates channel by channel, or rejects and changes nothing',
     'append_pack(other) makes every channel the old values followed by those of other, channels matched by key, with the mask reset over the whole, and leaves other (and everything derived from it) unchanged and independent. '
     'If the key sets differ it raises ValueError and neither pack changes; an empty pack takes over the data and names of other.',
     ['histories', 'inputs'], 'all histories of appends among several packs (to itself too) mixed with masking, in-place changes and renames',
     'Aliasing and partial failure show only in later operations; tests append once or twice.',
     PACK, [('append_pack', 'channelpack/pack.py:273')], ['pack.data, pack.mask, pack.names, pack.filenames'],
     'stateful model-based PBT over several packs', 'Random histories over 2 to 4 packs against independent models.')
prop('C10', 'Attribute settings take effect if valid and change nothing if rejected',
     'Setting nof, mindur, mask, data, names, fn or FALLBACK_PREFIX to a valid value takes effect and changes nothing else; an invalid value raises TypeError or ValueError and leaves the whole pack as it was. '
     'Setting fn and appending packs maintain the set of file names.',
     ['histories', 'inputs'], 'all histories of valid and invalid settings and deletions',
     'Whether a failed setting leaves the pack intact depends on the history before it.', PACK,
     [('__setattr__, __delattr__', 'channelpack/pack.py:228-272')], ['all attributes of the pack'],
     'stateful model-based PBT of attribute settings', 'Random histories of valid and invalid settings against a model of all attributes.')
prop('C11', 'textpack returns every field of every data line of a text file',
     'For every table written to a text file (any delimiter, decimal point or comma, header lines, line of names, missing values, blank lines, line ends, encoding, converters), textpack with the matching arguments returns the columns of the table: numbers as floats, missing numbers as nan, other fields as the text between the delimiters, and the names of the line of names.',
     ['inputs', 'configurations'], 'all tables, formats and argument combinations',
     'Tests read about ten fixed files; values, widths, delimiters and encodings combine without limit.',
     TEXT, [('textpack, linetuples, column conversion', 'channelpack/readtext.py')], ['pack.data', 'pack.names'],
     'generative round trip: render a table, read it back', 'Random tables rendered by an independent writer and read back; exact comparison.')
prop('C12', 'Selecting columns from text is exactly a restriction of the full read',
     'With usecols (an int or ints in any order) or a names dict, textpack returns exactly the selected columns, keyed by their column number in the file, each with the values and name it has in a full read.',
     ['inputs', 'configurations'], 'all tables and selections, in any order and with duplicates',
     'A swapped column needs an order tests do not use.', TEXT, [('usecols / names handling', 'channelpack/readtext.py')],
     ['pack.data', 'pack.names'], 'generative PBT: selection against the written table', 'Random tables and selections; exact comparison.')
prop('C13', 'A text source read by name, text stream or byte stream gives the same data',
     'Reading the same text by file name, open text file, StringIO or byte stream with encoding, from its current position, with debug on or off, gives the same pack; streams stay open and files opened by name are closed. '
     'A field that is not a number in a numeric column raises ValueError from every kind of source.',
     ['inputs', 'configurations'], 'all texts, kinds of source, positions and debug settings',
     'Tests use one kind of source per file; the cross product is not sampled.', TEXT, [('contextopen', 'channelpack/readtext.py')],
     ['pack.data', 'pack.fn', 'stream.closed'], 'differential PBT over kinds of source', 'Random texts through 8 kinds of source.')
prop('C14', 'lazy_textpack finds names, delimiter, decimal sign and start of numeric files',
     'For a file of numeric rows (decimal point or comma, any delimiter) below any header text, with or without a line of names, lazy_textpack returns every row, value and name; arguments given override what is found. '
     'A source without a parsable row raises ValueError.',
     ['inputs', 'configurations'], 'all numeric tables, headers, delimiters, decimal signs, pre-parse lengths, overrides and kinds of source',
     'The heuristics are tested on about ten files; what they must get right ranges over all headers and delimiters.',
     TEXT, [('preparse, lazy_textpack', 'channelpack/readtext.py')], ['pack.data', 'pack.names'],
     'generative round trip through the format detection', 'Random numeric files within the stated domain (see DESIGN.md); exact comparison.')
prop('C15', 'dbfpack returns every field of every record not deleted',
     'For every dBase file, dbfpack returns one channel per field, in file order, with the field\'s name and the value of each record not marked deleted: integers, floats, nan for blank numbers, dates (None if blank), T/F/? for logicals, and character fields as stored.',
     ['inputs'], 'all field layouts, values, record counts, deleted records and trailers',
     'Tests read one or two files.', DBF, [('dbfreader', 'channelpack/dbf.py:18')], ['pack.data', 'pack.names'],
     'generative round trip with an own dBase writer', 'Random files from an independent writer; exact comparison.')
prop('C16', 'dbfpack(names=...) is the restriction of the full read to those fields',
     'With names given, dbfpack returns exactly the fields of these names, keyed by their position in the file, with the values and records of a full read (deleted records skipped).',
     ['inputs', 'configurations'], 'all files and selections of names (any order, repeated, any kind of collection)',
     'Record alignment after skipped fields and deleted records needs particular combinations.', DBF,
     [('dbfrecords', 'channelpack/dbf.py:86')], ['pack.data', 'pack.names'], 'generative PBT: selection against the written records',
     'Random files and selections; exact comparison.')
prop('C17', 'A dBase file cut short is never read as if it were complete',
     'Reading a dBase file cut at any byte either raises or returns exactly the data of the whole file; it never returns fewer records or altered values.',
     ['crash_points', 'inputs'], 'all files and all cut points', 'No test reads a damaged dBase file.', DBF,
     [('struct.unpack of each record', 'channelpack/dbf.py')], ['exception or pack.data'], 'fault-injection PBT: truncation at generated offsets',
     'Random files and cut points.')

XLSX = ['channelpack/readxl.py', 'channelpack/xlrd/xlsx.py']
prop('C18', 'Every cell of an xlsx workbook is read as it was stored',
     'For every xlsx workbook, the sheet names, the dimensions and the type and value of every cell (number, text, date, boolean, error, empty) of every worksheet are those stored, whatever lawful way the file stores them (shared, inline, rich or formula strings, omitted cell references, part names, prefixes, order of parts, encodings). '
     'sheetpack returns the columns of the chosen sheet, by index or name, as channels keyed by column number.',
     ['inputs', 'configurations'], 'all workbooks and all lawful ways of writing them',
     'Tests read a few files saved by one program; other writers, gaps, escapes and formats are not sampled.',
     XLSX, [('X12Sheet / X12SST / X12Styles', 'channelpack/xlrd/xlsx.py'), ('sheet_columns', 'channelpack/readxl.py:54')],
     ['sheet.row_types, row_values, nrows, ncols', 'sheetpack(...).data and names'],
     'generative round trip with an own xlsx writer of many variants', 'Random workbooks from an independent writer; all cells compared.')

XLS = ['channelpack/readxl.py', 'channelpack/xlrd/sheet.py', 'channelpack/xlrd/book.py', 'channelpack/xlrd/compdoc.py', 'channelpack/xlrd/formatting.py']
prop('C19', 'Every cell of an xls workbook (Excel 5 to 2003) is read as it was stored',
     'For every xls workbook of BIFF version 5, 7 or 8, the sheet names, the dimensions and the type and value of every cell of every sheet are those stored, whatever record kinds (RK, MULRK, shared strings split over CONTINUE records, formula results, blanks), code page, compound-document layout or stream are used. '
     'sheetpack returns the columns of the chosen sheet as channels keyed by column number.',
     ['inputs', 'configurations'], 'all workbooks and all lawful ways of storing them',
     'Tests read a few files; the record kinds, splits at every byte and container layouts are not sampled.',
     XLS, [('Sheet.read', 'channelpack/xlrd/sheet.py'), ('unpack_SST_table', 'channelpack/xlrd/book.py'), ('CompDoc', 'channelpack/xlrd/compdoc.py')],
     ['sheet.row_types, row_values, nrows, ncols', 'sheetpack(...).data and names'],
     'generative round trip with an own BIFF8/7/5 and OLE2 writer', 'Random workbooks from an independent writer; all cells compared.')
prop('C20', 'Every cell of an old xls worksheet (Excel 2 to 4) is read as it was stored',
     'For every worksheet or workbook file of BIFF version 2.0, 2.1, 3, 4 or 4W, the dimensions and the type and value of every cell are those stored, and sheetpack returns its columns as channels keyed by column number.',
     ['inputs', 'configurations'], 'all files of these versions and all record kinds in them',
     'No test reads a file of the old versions; the code has separate branches for each.',
     XLS, [('Sheet.read branches by biff_version', 'channelpack/xlrd/sheet.py')],
     ['sheet.row_types, row_values, nrows, ncols', 'sheetpack(...).data and names'],
     'generative round trip with an own BIFF2 to BIFF4 writer', 'Random worksheets from an independent writer; all cells compared.')
prop('C21', 'sheetpack returns exactly the cells of the range asked for',
     'For any sheet, start cell, stop cell, header choice and usecols, sheetpack returns the chosen columns within the range, keyed by their column number in the sheet, with the values of exactly the rows of the range (less the header row when header is True) and the names of the header row. '
     'A column outside the range raises ValueError, and a sheet that does not exist raises.',
     ['inputs', 'configurations'], 'all sheets, ranges, header cells and usecols notations',
     'Tests combine a few ranges of one or two sheets.',
     ['channelpack/readxl.py'], [('sheet_columns / sheet_names', 'channelpack/readxl.py'), ('normalize_usecols', 'channelpack/readxl.py')],
     ['sheetpack(...).data and names', 'ValueError'], 'generative PBT: calls against the sub-matrix of the written sheet',
     'Random workbooks in all formats and random calls; exact comparison.')

prop('C22', 'The kinds of cells in a sheet column decide the type of the channel',
     'A channel read from a sheet column of numbers and missing cells (absent, blank or error) is float with nan for the missing ones, one of text and missing cells is text with empty strings, and any other holds datetimes, bools, floats, text and None for missing, as numpy puts them together. '
     'Every value is that of its cell.',
     ['inputs'], 'all mixtures of cell kinds in a column, in all workbook formats',
     'Tests read a few columns; one cell of another kind at any place of a column changes the rule.',
     ['channelpack/readxl.py'], [('sheet_columns', 'channelpack/readxl.py:54')], ['sheetpack(...).data'],
     'generative PBT over mixtures of cell kinds', 'Random columns over all sets of cell kinds; dtype, element types and values compared.')
prop('C23', 'Dates convert to and from serial numbers exactly, or are refused',
     'xldate_as_datetime gives the moment of a serial number to the millisecond and xldate_as_tuple to the nearest second, in both date systems (days before 1900-03-01 shifted, or refused as ambiguous, in the 1900 system). '
     'xldate_from_date_tuple, xldate_from_time_tuple and xldate_from_datetime_tuple are their inverses on every valid date, and negative, ambiguous, too large or invalid values raise the documented error.',
     ['inputs'], 'all serial numbers, dates and times in both date systems',
     'Tests convert a handful of dates; leap years, rounding up over midnight and the limits need all days and many fractions.',
     ['channelpack/xlrd/xldate.py'], [('xldate_as_tuple, xldate_as_datetime, xldate_from_*', 'channelpack/xlrd/xldate.py')],
     ['return values and exceptions'], 'PBT against exact fractions and the calendar of datetime, and round trips',
     'Random serials and tuples, and blocks of consecutive days (all days in the thorough tier), against exact arithmetic.')
prop('C24', 'Numbers are read as dates exactly when their cell format is a date format',
     'A number cell is of date type if and only if its number format displays a date or time: letters and digits inside quoted or escaped text, fillers, colours, conditions and currency or locale brackets do not count. '
     'This holds for built-in and custom formats in every workbook format.',
     ['inputs'], 'all number formats of the format grammar, in all workbook formats',
     'Tests use a few formats; misleading text inside formats is unbounded.',
     ['channelpack/xlrd/formatting.py', 'channelpack/xlrd/xlsx.py'], [('is_date_format_string', 'channelpack/xlrd/formatting.py:462')],
     ['sheet.cell_type', 'sheetpack(...).data'], 'grammar-based generation of formats, the grammar being the oracle',
     'Random formats from a grammar whose start symbol tells date from number.')
prop('C25', 'Cell addresses and column letters mean the cell they name, or are refused',
     'letter2num, cellreference, normalize_usecols, xlrd.colname and xlrd.cellname agree with spreadsheet notation (A=0, Z=25, AA=26, XFD=16383; any case; rows from 1; usecols as letters, ranges or ints in any order, returned sorted), so that sheetpack addresses exactly the cells named by startcell, stopcell, header and usecols. '
     'Notation that is not an address or column in full raises.',
     ['inputs'], 'all columns, rows, cases and broken notations', 'Tests check about ten addresses.',
     ['channelpack/readxl.py', 'channelpack/xlrd/formula.py', 'channelpack/xlrd/xlsx.py'],
     [('cellreference, normalize_usecols, letter2num', 'channelpack/readxl.py:34'), ('colname, cellname', 'channelpack/xlrd/formula.py:2078')],
     ['return values and exceptions', 'sheetpack(...).data'], 'PBT against bijective base 26, with broken notations, and end to end on wide sheets',
     'Random addresses and usecols, valid and broken, against an independent conversion.')
prop('C26', 'A file read by name is closed and unchanged after the read, failed or not',
     'After textpack, lazy_textpack, dbfpack or sheetpack of a file name returns or raises, whatever the file holds, no descriptor or memory mapping of the file remains open and no unclosed file is left to the garbage collector; the file and its directory are unchanged. '
     'Reading the same file again gives the same result.',
     ['inputs', 'fault_sequences'], 'all files, intact or damaged, of all formats, and right and wrong arguments',
     'No test looks at descriptors; failing reads take paths no test reaches.',
     ['channelpack/readtext.py', 'channelpack/xlrd/__init__.py', 'channelpack/xlrd/book.py'],
     [('contextopen', 'channelpack/readtext.py:189'), ('open_workbook', 'channelpack/xlrd/__init__.py:24'), ('release_resources', 'channelpack/xlrd/book.py:540')],
     ['/proc/self/fd, /proc/self/maps', 'ResourceWarning', 'bytes of the file'], 'fault-injection PBT with descriptor accounting',
     'Random files and damages; descriptors, mappings and warnings after each read.')
prop('C27', 'However a workbook is opened and addressed, its cells are the same',
     'The sheets and cells of a workbook are the same opened by name, from bytes or a memory map, with or without mmap, at once or on demand (in any order of loading and unloading), with padded or ragged rows with or without formatting information (which adds formatted blank cells) and at any verbosity. '
     'Cells, rows and columns, by index, slice (negative bounds included), subscript or iteration, are slices of the same matrix.',
     ['configurations', 'histories', 'inputs'], 'all workbooks, combinations of options, load histories and accesses',
     'Tests open workbooks in the default way only.',
     ['channelpack/xlrd/__init__.py', 'channelpack/xlrd/book.py', 'channelpack/xlrd/sheet.py'],
     [('put_cell_ragged / put_cell_unragged, tidy_dimensions', 'channelpack/xlrd/sheet.py:594'), ('get_sheet, unload_sheet', 'channelpack/xlrd/book.py')],
     ['Book and Sheet accessors'], 'differential PBT over options, load histories and accessors', 'Random workbooks, options and histories; all cells compared.')
prop('C28', 'A workbook cut short is refused or read in full, never in part',
     'Opening an xls or xlsx file cut at any byte, or reading it with sheetpack, either raises or gives exactly the cells of the whole workbook.',
     ['crash_points', 'inputs'], 'all workbooks in all formats and all cut points', 'No test reads a damaged workbook.',
     XLS, [('CompDoc sector chains', 'channelpack/xlrd/compdoc.py'), ('get_record_parts', 'channelpack/xlrd/book.py')],
     ['exception or cells'], 'fault-injection PBT: truncation at generated offsets', 'Random workbooks and cut points.')

prop('C29', 'A workbook is told by its content; what is no workbook is refused',
     'Opening a workbook reads the same sheets and cells whatever the name of its file. '
     'A file or bytes whose content is not a workbook of a supported format (empty, text, html, csv, ods, xlsb, another zip, an encrypted or protected workbook, an OLE2 file without a workbook stream) raises XLRDError from open_workbook; nothing is returned for it.',
     ['inputs'], 'all file names and all contents that are or are not workbooks',
     'Tests use a few files with the usual names.',
     ['channelpack/xlrd/__init__.py', 'channelpack/xlrd/book.py'],
     [('open_workbook', 'channelpack/xlrd/__init__.py:24'), ('getbof, biff2_8_load', 'channelpack/xlrd/book.py')],
     ['exception or cells'], 'PBT over contents and names, refusal or cells by construction', 'Random contents, near misses of workbooks, and file names.')

prop('C30', 'What a workbook stores about a sheet beside its cells is read as stored',
     'Opened with formatting_info, an xls workbook of any BIFF version gives for every sheet its visibility, row and column descriptions, default sizes, computed column widths, window options, zoom, panes, page breaks, merged and label ranges, cell notes, hyperlinks and rich text runs exactly as the file stores them. '
     'An xlsx workbook gives the visibility, merged ranges and notes (text and author) of its sheets, wherever in the package their parts lie.',
     ['inputs'], 'all workbooks of BIFF 2 to 8 and xlsx with such records',
     'Tests look at a few sample files.',
     ['channelpack/xlrd/sheet.py', 'channelpack/xlrd/xlsx.py'],
     [('Sheet.read, handle_hlink, handle_note, handle_obj, handle_txo, computed_column_width', 'channelpack/xlrd/sheet.py'), ('process_rels, process_comments_stream, do_merge_cell', 'channelpack/xlrd/xlsx.py')],
     ['attributes of Sheet, Rowinfo, Colinfo, Note, Hyperlink'], 'PBT with independent writers of xls and xlsx', 'Random sheet descriptions written to bytes; every attribute compared with the description.')

prop('C31', 'The formatting of every cell of an xls workbook is read as stored',
     'Opened with formatting_info, an xls workbook of any BIFF version gives its fonts, number formats, XF records (alignment, borders, background, protection and the parts a record sets), colour palette and named styles as the file stores them, and the XF index of every cell resolves to the one stored for it.',
     ['inputs'], 'all fonts, formats, XF records, palettes and styles, in BIFF 2 to 8',
     'Tests look at a few cells of sample files.',
     ['channelpack/xlrd/formatting.py', 'channelpack/xlrd/sheet.py'],
     [('handle_font, handle_format, handle_palette, handle_style, handle_xf, xf_epilogue', 'channelpack/xlrd/formatting.py'), ('cell_xf_index, fixed_BIFF2_xfindex', 'channelpack/xlrd/sheet.py')],
     ['Book.font_list, format_map, xf_list, colour_map, style_name_map; Sheet.cell_xf_index'], 'PBT with an independent xls writer', 'Random formatting records written to bytes; every attribute compared with the description.')

prop('C32', 'Defined names are read as stored and never keep a workbook from being read',
     'A workbook (xls of Excel 5 or later, xlsx) with defined names of any formulas opens with its cells as stored, and lists every name in file order with its name, scope (worksheet index, -1 global, -2 another kind of sheet) and flags, to be found by name_map and name_and_scope_map. '
     'In an xls workbook the result of a formula that is a constant, an expression of constants or a 3D reference (absolute or relative, directly or by other names) is its value, and its text means the stored formula. '
     'Name.cell and Name.area2d give the cells an absolute reference to one sheet means, and raise XLRDError for other names.',
     ['inputs'], 'all sets of defined names and formulas, where names refer to each other without circles and at most ten deep',
     'Tests read the names of a few sample files.',
     ['channelpack/xlrd/book.py', 'channelpack/xlrd/formula.py', 'channelpack/xlrd/xlsx.py'],
     [('handle_name, names_epilogue, handle_externsheet, handle_supbook, Name.cell, Name.area2d', 'channelpack/xlrd/book.py'), ('evaluate_name_formula', 'channelpack/xlrd/formula.py'), ('do_defined_name, make_name_access_maps', 'channelpack/xlrd/xlsx.py')],
     ['Book.name_obj_list, name_map, name_and_scope_map; Name.result'], 'PBT with independent writers, an evaluator and a parser of formula texts', 'Random formula trees written as tokens; values and texts compared with the tree.')
prop('C33', 'What a workbook tells about itself is read as stored',
     'The user name, country codes, code page, date system and BIFF version of an xls workbook, and the core properties (creator, last user, dates) and user name of an xlsx workbook, are those the file stores. '
     'The text of an xls workbook of Excel 95 or earlier is decoded by its code page, or by encoding_override when that is given, whatever code page the file tells (or none).',
     ['inputs', 'configurations'], 'all workbooks of BIFF 2 to 8 and xlsx, code pages recorded rightly, wrongly or not at all, and overrides',
     'Tests open a few sample files with the usual code page.',
     ['channelpack/xlrd/book.py', 'channelpack/xlrd/xlsx.py', 'channelpack/xlrd/biffh.py'],
     [('derive_encoding, handle_codepage, handle_writeaccess, handle_country', 'channelpack/xlrd/book.py'), ('process_coreprops', 'channelpack/xlrd/xlsx.py')],
     ['Book.user_name, countries, codepage, encoding, datemode, biff_version, props; cells'], 'PBT with independent writers of the formats', 'Random workbooks compared with their description.')

prop('C34', 'A pack copied, pickled or evaluated from its repr is the same pack again',
     'A deep copy or a pickled and unpickled copy of a pack has equal data, names, mask, file names and settings, takes any later operation as the pack itself does, and shares nothing with it: no operation on one changes the other. '
     'repr(pack) does not change the pack and (with numpy printing in full) evaluates to a pack with the same data and names.',
     ['histories', 'inputs'], 'all packs (types of data, names, masks, settings) and histories of operations after the copy was made',
     'Tests print and copy a few small packs.',
     ['channelpack/pack.py'], [('ChannelPack.__repr__, __setattr__, IntKeyDict, NpDict', 'channelpack/pack.py')],
     ['copy.deepcopy, pickle, repr of a ChannelPack'], 'PBT on histories, differential against the pack itself', 'Random packs and histories.')

prop('C35', 'The dump and summary of an xls file tell every record of its stream',
     'xlrd.dump writes every record of the workbook stream, in order, with its offset (unless unnumbered), code, name, length and bytes, and the zero or odd bytes between and behind them, so that the stream can be put together again from it, whatever layout the file has. '
     'xlrd.count_records writes how many records of each name there are, sorted by name; padding behind the last record is not counted.',
     ['inputs'], 'all xls files: streams of any records, bare or in compound documents of any layout',
     'Tests do not use these functions.',
     ['channelpack/xlrd/biffh.py', 'channelpack/xlrd/__init__.py'],
     [('biff_dump, biff_count_records, hex_char_dump', 'channelpack/xlrd/biffh.py'), ('dump, count_records', 'channelpack/xlrd/__init__.py')],
     ['text written by xlrd.dump and xlrd.count_records'], 'PBT, round trip from the dump to the stream', 'Random files; the dump is parsed back.')

prop('C36', 'Reading a damaged file ends, with an error or a result',
     'Whatever bytes of a workbook or dBase file are changed, cut out or doubled, open_workbook (ragged_rows, with or without formatting_info or ignore_workbook_corruption) and dbfpack return or raise an exception, without going on forever and without using memory out of proportion to the file.',
     ['inputs', 'fault_sequences'], 'all damages of files in all formats read: circular sector chains, absurd lengths, counts and indexes',
     'Tests read intact files and a few damaged ones.',
     ['channelpack/xlrd/compdoc.py', 'channelpack/xlrd/book.py', 'channelpack/xlrd/sheet.py', 'channelpack/xlrd/xlsx.py', 'channelpack/dbf.py'],
     [('CompDoc', 'channelpack/xlrd/compdoc.py'), ('Book, open_workbook_xls', 'channelpack/xlrd/book.py')],
     ['open_workbook or dbfpack comes back'], 'structure-aware mutation fuzzing under limits of CPU time and memory', 'Random damages of generated files; 20 s of CPU time and 1 GB each (usual: milliseconds).')

prop('C37', 'A read depends on its file and arguments alone, whatever else is read',
     'textpack, lazy_textpack, dbfpack and sheetpack give what the file holds at the time of the call, whatever was read or failed before (under the same name too), whatever was done to packs read before, and whatever other threads read at the same time. '
     'They leave their arguments as they were, packs read before do not change by later reads, and workbooks opened on demand can be loaded in turn.',
     ['histories', 'schedules', 'inputs'], 'all histories of reads, rewritten files, failures and changes in place, and all interleavings of reading threads',
     'Tests read each file once, in one thread.',
     ['channelpack/readtext.py', 'channelpack/dbf.py', 'channelpack/readxl.py', 'channelpack/xlrd/book.py', 'channelpack/xlrd/xlsx.py'],
     [('textpack, lazy_textpack, preparse', 'channelpack/readtext.py'), ('dbfpack', 'channelpack/dbf.py'), ('sheetpack', 'channelpack/readxl.py'), ('Book', 'channelpack/xlrd/book.py')],
     ['packs and workbooks read'], 'stateful PBT over histories and threads against the contents written', 'Random histories and threads; every read compared with the content of its file.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fo:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            fo.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [
        {'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
         'thorough_cmd': './check %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
         'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P],
        'not_applicable': [],
        'notes': 'No hooks in /repo are needed: all observation is through the public API. Repaired defects are listed in known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
        json.dump(m, fo, indent=1)
        fo.write('\n')


if __name__ == '__main__':
    main()
