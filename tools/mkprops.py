#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

I, S, C, H, F = "inputs", "schedules", "configurations", "histories", "fault_sequences"
BIFF = "rxls/biff.py"; XB = "rxls/reader/xlsb.py"; XX = "rxls/reader/xlsx.py"; RD = "rxls/reader/common.py"
CH = "rxls/chunk/chunk.py"; CA = "rxls/chunk/casts.py"; SE = "rxls/series.py"; AR = "rxls/chunk/arrow.py"
RC = "rxls/biff_recs.py"; RE = "rxls/rels.py"; EN = "rxls/biff_enum.py"
NOT = "The six tests only dump and scan three BIFF records; "

p("C01", "A BIFF12 record survives a dump followed by a scan",
  "Serialising a record whose id is a wire-form id (one byte below 0x80, or two bytes whose low byte is at least 0x80) and whose payload is shorter than 2^28 bytes, and scanning the resulting bytes, gives back the same id and the same payload. The scan consumes exactly the bytes that were written, so a following record is found at its own first byte. The standalone size encoder produces the same size prefix as a record's own serialisation.",
  [I], "all wire-form ids, all payload lengths below 2^28, any sequence of records",
  "The tests use three payload lengths (at most 1509 bytes) and two ids; the three- and four-byte size prefixes and every length boundary are never reached.",
  [BIFF], [("size prefix encoder, and its inlined copy in the record serialiser", f"{BIFF} dump_sz, record.as_binary"), ("size and id decoder", f"{BIFF} scan_biff")],
  observe=["bytes of a dumped record", "records yielded by a scan"])
p("C02", "A filtered BIFF12 scan is the full scan restricted to the wanted ids",
  "Scanning with a non-empty set of record ids yields exactly the records an unfiltered scan yields with those ids, in the same order and with the same payloads; the payload of an unwanted record is passed over in full and never read as a record. A record cut short by the end of the stream is never yielded and ends the scan without an error.",
  [I], "all record streams, all non-empty id sets, truncation at any byte",
  "No test passes an id filter or a truncated stream.",
  [BIFF], [("skip of unwanted payloads, end-of-stream handling", f"{BIFF} scan_biff")], observe=["records yielded by a scan"])
p("C03", "BIFF12 record names and ids are a one-to-one table of wire-form ids",
  "Every record name stands for exactly one id and every id for exactly that name, each id is in the form a scan produces (below 0x80, or two bytes with the low byte at least 0x80), and every MS-XLSB record name keeps its published number. Looking up the name of an unknown id gives 'Undefined' and never another record's name.",
  [I], "all names and ids of the table", "The table has 845 entries; no test looks one up.",
  [EN, BIFF], [("name-to-id table and its inverse", f"{EN} BIFF_ENUM, BIFF_ENUM_REVERSED"), ("lookup", f"{BIFF} record.rec_name, record.from_data")])
p("C04", "XLSB cell records are decoded at the layout the format prescribes",
  "For each of the eight value-bearing XLSB cell records (RK number, boolean, real, string, shared-string index, and string, number and boolean formula results) the reader emits at most one cell, whose column, number-format reference and value come from the byte positions MS-XLSB prescribes and whose kind fits the record, dates being exactly the number-like cells with a temporal format. Any other record emits no cell.",
  [I], "all record contents, all eight record kinds, all style ids", NOT + "no worksheet is ever read.",
  [XB], [("record dispatch of the sheet loop", f"{XB} XlsbWorkbook.iter_worksheet"), ("kind flags", "rxls/constants.py")], observe=["cells yielded by the worksheet iterator"])
p("C05", "XLSX cells are classified by declared type and number format",
  "An XLSX cell with non-blank text emits exactly one value: a shared-string index if its type is 's', text if its type is 'str', 'inlineStr', 'e' (an error) or 'd' (an ISO date), otherwise a date or a number if its number format is temporal or numeric, and text if it is neither. Only the cell's value or inline text counts: formula source, phonetic hints and character data outside cells never become values, and a blank cell emits nothing.",
  [I], "all cells: declared type, style and content in any combination", NOT + "no worksheet is ever read.",
  [XX], [("start/text/end handlers of the worksheet parser", f"{XX} XlsxWorkbook.iter_worksheet")], observe=["cells yielded by the worksheet iterator"])
p("C06", "Text split by the XML parser or into rich-text runs is read whole",
  "The text read from an XLSX cell or shared string does not depend on how the XML parser splits its character data into callbacks, nor on how many rich-text runs carry it: it is the concatenation of all the pieces in document order, stripped of surrounding blanks.",
  [I, S], "all texts, all splits of the character data into callbacks, any number of runs", NOT + "splitting needs texts beyond the parser's 8 KiB buffer or rich text.",
  [XX], [("character data accumulation in both parsers", f"{XX} XlsxWorkbook.shared, XlsxWorkbook.iter_worksheet")])
p("C07", "The i-th shared-string item is entry i of the table, whatever it contains",
  "In both formats the shared-string table has exactly one entry per item of the shared-strings part, in document order: plain, rich, empty, blank and null-listed items each take exactly one entry. A cell holding index i therefore always gets the text of item i.",
  [I], "all shared-strings parts", NOT + "no shared-strings part is ever read.",
  [XX, XB], [("handlers of the shared-strings parser", f"{XX} XlsxWorkbook.shared"), ("record enumeration", f"{XB} XlsbWorkbook.shared")], observe=["shared-string table", "text cells"])
p("C08", "Null-listed texts are null wherever and however a cell holds them",
  "A text cell is dropped as null exactly when its text is a known Excel error text or is matched by the caller's null values, in both formats, whether the cell holds the text itself or a shared-string index, and whatever the cell's position in the sheet. An index is never itself compared with the null values.",
  [I, C], "all sheets, all null_values lists and predicates, all cell orders", NOT + "null_values is never passed.",
  [XX, XB], [("null predicate", f"{XX} and {XB} __init__"), ("null shared indices", f"{XX} and {XB} shared, iter_worksheet")])
p("C09", "A failure while a worksheet is being parsed reaches the caller",
  "If parsing an XLSX worksheet fails at any point - malformed XML, a row callback or null predicate that raises, a missing attribute - the worksheet iterator raises that exception to its consumer after the cells parsed so far. It never ends as though the sheet were complete.",
  [F, I], "a failure of any exception type at any step of the parse", NOT + "no failing input is ever read.",
  [XX], [("exception handling of the background parser", f"{XX} iter_worksheet worker")], observe=["exception from the iterator"])
p("C10", "Iterating a worksheet always ends and never deadlocks",
  "However the background parse of an XLSX worksheet ends - end of sheet, row limit, malformed XML, a callback raising at any call including the first - the end marker is queued exactly once, after the last cell, so the consumer never waits forever. A consumer that stops early never leaves the parse blocked on the queue.",
  [S, F], "all schedules of parser and consumer, failure at any step", NOT + "no worksheet is ever read.",
  [XX], [("end marker on every exit of the parser thread; unbounded queue", f"{XX} iter_worksheet")])
p("C11", "What is read does not depend on how parser and consumer interleave",
  "The background parser of an XLSX worksheet and its consumer share no mutable state besides the cell queue and a failure slot read only after the end marker; everything else the parser consults (styles, null shared strings, options) is complete before the parser starts and is not changed while it runs.",
  [S], "all schedules of parser thread and consumer", NOT + "no schedule is controlled.",
  [XX], [("arguments handed to the parser thread", f"{XX} iter_worksheet"), ("lazily computed tables", f"{XX} shared, styles, sheets")])
p("C12", "Rows are numbered consecutively and empty rows are counted consistently",
  "In both formats rows are numbered from 0 in document order. A row without any kept value (no cells, only null-listed values, or only skipped columns) takes a row number exactly when empty rows are to be kept, wherever in the sheet it stands.",
  [I, C], "all sequences of empty and non-empty rows, both settings of take_rows_non_empty, both formats", NOT + "no worksheet is ever read.",
  [XX, XB], [("row counter and empty-row flag", f"{XX} and {XB} iter_worksheet")], observe=["row of each yielded cell"])
p("C13", "skip_rows and take_rows select exactly the documented rows",
  "In both formats skip_rows=N drops exactly the first N rows of the sheet, empty or not, and numbers the next row 0; take_rows=0 sets no limit, with or without skip_rows; take_rows=T>0 yields no cell beyond row number T (0-based, counted after the skipped rows) and every cell up to it.",
  [I, C], "all row sequences, all skip_rows and take_rows, both settings of take_rows_non_empty, both formats", NOT + "no row option is ever passed.",
  [XX, XB], [("skip and stop conditions", f"{XX} and {XB} iter_worksheet")])
p("C14", "Column references and skip_cols use one 0-based numbering in both formats",
  "Column A is 0, Z is 25, AA is 26 and so on: an XLSX cell reference maps to the number its letters denote, its row digits ignored, and an XLSB cell keeps its stored column. A column listed in skip_cols yields no cell and every other column is unaffected, in both formats.",
  [I, C], "all cell references, all skip_cols lists, both formats", NOT + "no cell reference is decoded.",
  [XX, XB], [("column decoding", f"{XX} col_idx"), ("column filter", f"{XX} and {XB} iter_worksheet")])
p("C15", "Every value stands at its own row of its column and none is lost",
  "In the column a series of cells builds, the value added for row r is at position r and every row without a value is null, whatever the gaps and changes of kind between the values. A further value for a row that already has one is ignored. The column's length is its last row + 1, leading empty rows included.",
  [I, H], "all sequences of cells of a column: any rows in order, gaps and kinds", NOT + "no column is ever built.",
  [SE, CH], [("chunk building", f"{SE} xl_series.add, to_arrow, __len__")], state=[("pending chunk, pending null count, finished chunks, last row", "together they spell the column so far", SE)])
p("C16", "A window of a column holds exactly the requested positions",
  "Taking offset o and length n>0 of a column gives n entries: positions o, o+1, ... in order, null beyond the column's end; length 0 gives everything from o on. With a row mask, exactly the positions marked in the mask (counted from o) are taken, in order. A null run is cut like any other sequence would be.",
  [I], "all chunkings of a column, all offsets, lengths and masks", NOT + "no column is ever cut.",
  [CH], [("window over chunks", f"{CH} chunk.take_over, chunk.take, null_slice")])
p("C17", "All columns and row filters are cut by one window",
  "Every column of the resulting table and every row-filter mask is taken with the same offset and length, starting right after header and skipped rows, and all columns with the same combined mask; so the columns have equal length and one table row always comes from one sheet row. A filter mask marks the rows whose cell is neither null nor NaN, and several are combined by the requested and/or operators in order.",
  [I, C], "all sheets and all combinations of header, lookup_head, skip_rows_after_header, row_filters and row_filters_strategy", NOT + "read is never called.",
  [RD], [("window computation and final assembly", f"{RD} read")])
p("C18", "Columns come in sheet order and each keeps its own name",
  "The table's columns are in ascending sheet-column order whatever the order in which columns first hold a value, and the i-th name (read from the sheet, generated or given), the i-th positional dtype and a filter chosen by name or position all refer to that same i-th column.",
  [I], "all orders of first appearance of columns", NOT + "read is never called.",
  [RD], [("every walk over the columns is sorted by column number", f"{RD} read, header building")])
p("C19", "Column names are pairwise distinct, one per column",
  "When names are taken from the sheet's header or generated, there is exactly one per column, no two are equal, and a name that would repeat an earlier one is told apart by a numeric suffix. A given list of names of the wrong length is rejected.",
  [I], "all header texts including repeated, empty and already-suffixed ones", NOT + "no header is ever built.",
  [RD], [("header deduplication", f"{RD} header building")])
p("C20", "Conflict resolution is all or nothing",
  "When a column mixes kinds and any part cannot be converted as the conflict setting asks, the whole column becomes text in which every cell has the text of its original value, as if no conversion had been attempted. When every part converts, no cell stays unconverted. Kinds that the setting does not allow to be converted are never converted to each other except to text.",
  [I, C], "all mixtures of kinds, every conflict setting, failure at any part", NOT + "no column is ever converted.",
  [CH], [("conversion of the parts of a column", f"{CH} chunk.concatenate")])
p("C21", "Reading a column never changes what later reads of it return",
  "Rendering a column or any window of it - as text, as a filter mask, as final data - any number of times and in any order leaves the stored values, their order and their number unchanged for later reads.",
  [H], "all sequences of reads of one column", NOT + "no column is ever read.",
  [CH, SE], [("conversion works on copies", f"{CH} chunk.concatenate, take, as_temporal, as_numeric"), ("reads", f"{SE} to_utf8, to_arrow")])
p("C22", "Requested dtypes are applied or the read fails",
  "Every column selected by dtypes (all of them, by position or by name) has exactly the requested type in the result, including its parameters such as a timestamp unit; a column that cannot be cast makes the read raise ValueError naming it, and a dtype list of the wrong length is rejected. A column that is not selected keeps its type.",
  [I, C], "all column types and all dtypes arguments", NOT + "read is never called.",
  [RD], [("cast stage", f"{RD} read")])
p("C23", "Every stored value is decoded exactly once before it is shown",
  "Whatever the source representation (RK-coded number, plain number, boolean, date serial, shared-string index, text) and whatever sequence of window cuts, conversions and renderings is applied, each value shown has been decoded exactly once: no raw RK code, date serial or string index is ever shown as a value, and no decoded value is decoded again.",
  [I, H], "all source representations and all sequences of operations on a chunk", NOT + "no chunk is ever built.",
  [CH, SE, "rxls/constants.py"], [("representation flags", f"{CH} constructors, prepare, as_temporal, as_numeric, take, arrow")])
p("C24", "File content never causes access outside a buffer",
  "No number taken from a file is used to address memory unchecked: a shared-string index beyond the table raises an error instead of reading foreign memory, and a buffer shorter than its declared element count is rejected instead of being read past its end.",
  [I], "all files, including malformed ones", NOT + "no malformed file is ever read.",
  [AR, CA, CH], [("bounds checking of the index lookup", f"{AR} take"), ("buffer construction", f"{CA} _unsafe_data_to_arrow, _unsafe_arrow")])
p("C25", "Every archive and part opened by a read is closed on every exit",
  "Each archive and each part opened while reading is closed when the operation returns or raises, on every path: including a file that turns out not to be a workbook, a part that fails to parse and a worksheet iterator abandoned early. A stream passed in by the caller is not closed.",
  [F, I], "all exits of every function that opens an archive or part", NOT + "no archive is ever opened.",
  [RD, XX, XB], [("context managers", f"{RD} read; {XX} and {XB} __enter__, __exit__, sheets, shared, styles, iter_worksheet")])
p("C26", "A workbook without shared strings or styles can be read",
  "The shared-strings part and the styles part are optional in both formats: when absent, the shared-string table is empty and no cell is temporal or numeric by format, and reading goes on. Parts are only opened by names that the archive is known, or required, to contain.",
  [I], "all workbooks with and without the optional parts", NOT + "no archive is ever opened.",
  [XX, XB], [("part lookup", f"{XX} and {XB} shared, styles")])
p("C27", "A sheet is found by name or position at the part its relationship names",
  "Each worksheet maps to the part its relationship targets, whether the target is relative to the workbook or absolute; sheets are numbered in workbook order; entries that are not worksheets are left out and never prevent other sheets from being read. An unknown name raises KeyError and a position out of range raises IndexError, in both formats.",
  [I, C], "all workbooks, relationship targets, names and positions", NOT + "no workbook is ever opened.",
  [XX, XB, RE], [("sheet table", f"{XX} and {XB} sheets, iter_worksheet")])
p("C28", "Both formats agree on which number formats are temporal",
  "A built-in format is temporal exactly when its id is 14-22 or 45-47, compared with the full format id; a custom format is judged by its own format code only, first section, after removing quoted text and bracketed modifiers other than elapsed-time ones, and is temporal when an unescaped date or time letter remains. The rule is the same for XLSX and XLSB, and a custom format whose first section is 0 or contains .00 is numeric, hence never temporal.",
  [I], "all format ids and format codes, both formats", NOT + "no styles part is ever read.",
  [XX, XB], [("style tables", f"{XX} and {XB} styles, TEMPORAL_STYLES, re_dt, re_xt")])
p("C29", "RK numbers decode per MS-XLSB for every bit pattern",
  "For every 32-bit RK code: if bit 1 is set the value is the upper 30 bits as a signed integer, otherwise it is the double whose upper 30 bits are those bits and whose other bits are zero; if bit 0 is set the value is divided by 100.",
  [I], "all 2^32 codes", NOT + "no RK number is ever decoded.",
  [CA], [("RK decoder", f"{CA} rk_to_f8")])
p("C30", "Date serials convert to the right day and the nearest millisecond",
  "A serial d >= 60 denotes day d-25569 since 1970-01-01, 1 <= d < 60 denotes day d-25568 (the fictitious 1900-02-29), and d < 1 a time of day; the result is that many days in milliseconds rounded to the nearest millisecond, not truncated.",
  [I], "all serials", NOT + "no serial is ever converted.",
  [CA], [("serial conversion", f"{CA} f8_to_ms_win")])
p("C31", "A date text parses to the instant it denotes or counts as not a date",
  "When texts are parsed as dates, a text matched by some format becomes the instant of the first matching format, for every instant including 1970-01-01 00:00 and earlier ones, and a time without a date becomes that time of day; a text is reported as not a date exactly when no format matches it. The value of a parsed instant is never taken as a sign of failure.",
  [I], "all texts and instants, all format lists", NOT + "no text is ever parsed.",
  [CA], [("multi-format parser", f"{CA} mf_strptime, _strptime")])
p("C32", "UTF-16 strings in BIFF12 records are coded without a byte-order mark",
  "Every string in a BIFF12 record is decoded as little-endian UTF-16 from exactly the code units its length field covers, whatever its first character; writing a string value and reading it back gives the same string, including the absent and the empty one and characters outside the BMP, and leaves the stream right after it.",
  [I], "all strings", NOT + "no string is ever decoded.",
  [RC, XB], [("string codec", f"{RC} xstr"), ("string fields", f"{XB} shared, styles, iter_worksheet")])
p("C33", "Relationships written as XML read back unchanged",
  "Writing a relationship as XML and reading it back gives the same id, type and target for every value of XML characters (a type being named by what follows the last slash), including ones with XML-special characters, and reading keeps every relationship of a part in order.",
  [I], "all ids, types and targets", NOT + "no relationship is read or written.",
  [RE], [("XML writer and reader", f"{RE} Relationship.dump_xml, scan_xml")])
p("C34", "Every documented option reaches the code that honours it in both formats",
  "Each option of the read function influences the result the same way for XLSX and XLSB: it is handed on unchanged to the stage that honours it and is used there, and none is silently ignored. An invalid row-filter operator, filter kind, negative skip_rows or take_rows, or unknown sheet raises an error.",
  [C], "all options, both formats", NOT + "read is never called.",
  [RD, XX, XB, SE], [("option forwarding", f"{RD} read; {XX} and {XB} iter_worksheet; {SE} __init__")])
p("C35", "Accelerated and plain builds compute the same conversions",
  "With and without the optional accelerator, the RK, serial and integer conversions apply the same function to every element and the record scanner decodes ids and sizes from the same bits, so installing it never changes a result.",
  [C], "all values; every combination of available accelerators", "The accelerator is not installed, so its branches are never run.",
  [CA, BIFF], [("guarded alternatives", f"{CA} NUMBA branches; {BIFF} scan_chunk")])
p("C36", "Multi-row headers join each column's cells under its group heading",
  "For a header of several rows, a column's name joins its own non-empty header cells from top to bottom with ', ', its leading empty cells first being filled from the corresponding cells of the nearest non-empty column on the left; a column without any non-empty header cell is called Unnamed.",
  [I], "all header blocks: any pattern of empty cells, any texts", NOT + "no header is ever built.",
  [RD], [("header building", f"{RD} header building")])
p("C37", "A numeric column becomes integer only if all its values are integral",
  "A column is delivered as integers only if every one of its numeric values, in every part of it, is finite and within the float precision of its own integer part; if any value is not, the whole column stays floating point.",
  [I], "all numeric columns in all chunkings", NOT + "no column is ever converted.",
  [CH, CA], [("integer check", f"{CH} chunk.concatenate; {CA} f8_is_i8")])
p("C38", "The same sheet saved as XLSX and as XLSB reads as equal tables",
  "Reading a sheet saved by Excel as XLSX and the same sheet saved as XLSB with the same options gives tables with equal names, equal types and equal values.",
  [I, C], "all sheets and options", NOT + "no sheet is ever read.",
  [XX, XB, SE, CH], [("the two readers", f"{XX}, {XB}")])
p("C39", "Null chunks and skipped rows cost no decoding",
  "Values outside the requested window or rejected by the row filter are never decoded, so reading time grows with the data kept and not with the data skipped.",
  [I], "all sheets and windows", NOT + "no time is measured.",
  [CH], [("lazy chunks", f"{CH} take_over, prepare")])
p("C40", "Numbers shown as text keep the shortest form that reads back equal",
  "When a numeric column is rendered as text, each number's text reads back as the same number, and integral numbers are shown without a fraction.",
  [I], "all doubles", NOT + "no number is ever rendered.",
  [CH], [("text rendering", f"{CH} utf8, arrow")])
p("C41", "Reads do not influence each other and leave their arguments as they were",
  "What a read returns, or the error it raises, depends on its own file and arguments alone: it is the same whatever was read before in the process, with whatever options, from either format, completely, partly or with a failure; and workbooks that are open at the same time, or two iterations of one workbook, yield the cells each yields alone. Lists, dicts and sets passed as arguments are unchanged afterwards.",
  [H, C, F], "all histories of reads, partial iterations and refused or failing reads, interleaved or not", NOT + "no test reads twice.",
  [RD, XB, XX, SE, CH], [("state per workbook", f"{XB} and {XX} __init__"), ("state per column", f"{SE} __init__"), ("arguments", f"{RD} read")],
  observe=["tables of successive reads", "cells of interleaved iterations", "argument objects after a read"])
p("C42", "A looked-up header starts at the first match within the lookup size",
  "When lookup_head is a pattern, the header starts at a row in which the text of a cell matches it, namely the first such row of that cell's column among the first lookup_size rows read (which column decides, when several match in different rows, is left open); when it is a column number, at the first row among these in which that column (0-based, A is 0) has a value. Rows above are not part of the table. When there is no such row the read raises and returns no table.",
  [I, C], "all sheets, patterns, columns and lookup sizes", NOT + "read is never called.",
  [RD], [("header search", f"{RD} header lookup")], observe=["names and rows of the table", "exception from read"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
