"""Which function decides which property, and how."""

CHECKS = {
    "C01": ("biff", "c01"),
    "C02": ("biff", "c02"),
    "C03": ("biff", "c03"),
    "C04": ("xlsb", "c04"),
    "C05": ("xlsx", "c05"),
    "C06": ("xlsx", "c06"),
    "C07": ("sheets", "c07"),
    "C08": ("sheets", "c08"),
    "C09": ("thread", "c09"),
    "C10": ("thread", "c10"),
    "C11": ("thread", "c11"),
    "C12": ("sheets", "c12"),
    "C13": ("sheets", "c13"),
    "C14": ("sheets", "c14"),
    "C15": ("series", "c15"),
    "C16": ("series", "c16"),
    "C17": ("tables", "c17"),
    "C18": ("tables", "c18"),
    "C19": ("tables", "c19"),
    "C20": ("series", "c20"),
    "C21": ("series", "c21"),
    "C22": ("tables", "c22"),
    "C23": ("series", "c23"),
    "C24": ("series", "c24"),
    "C25": ("resources", "c25"),
    "C26": ("resources", "c26"),
    "C27": ("resources", "c27"),
    "C28": ("formats", "c28"),
    "C29": ("numbers", "c29"),
    "C30": ("numbers", "c30"),
    "C31": ("dates", "c31"),
    "C34": ("options", "c34"),
    "C35": ("numbers", "c35"),
    "C36": ("tables", "c36"),
    "C37": ("numbers", "c37"),
    "C38": ("pairs", "c38"),
    "C41": ("histories", "c41"),
    "C42": ("lookups", "c42"),
    "C32": ("strings", "c32"),
    "C33": ("strings", "c33"),
}

ABSINT = "abstract interpretation of the syntax trees"

TECHNIQUE = {
    "C01": (
        f"{ABSINT}, bit-provenance domain for ids and sizes",
        "Covers every wire-form id and every payload length below 2^28 by symbolic bits and ranges (no sampling); trusts the "
        "models of struct, bytes and binary streams in sa/lib.py and sa/bits.py. Both the plain and the accelerated source are analysed.",
    ),
    "C02": (
        f"{ABSINT}, bit-provenance domain for ids and sizes, symbolic cut positions",
        "Every id and size of the middle record, a few shapes of id sets and streams of three records; the stream is cut at "
        "every header byte and at a symbolic position of the payload. Trusts the stream model (reads return what is left).",
    ),
    "C03": (
        "abstract execution of the module that builds the table, entry-by-entry comparison with a frozen table",
        "All 845 entries are compared; lookup of names is decided for a symbolic id. Trusts the frozen copy of the published numbers.",
    ),
    "C04": (
        f"{ABSINT} with symbolic record bytes, all paths of the cell loop",
        "Payload bytes are symbols, so positions, widths and kinds are decided for every value; the record mix of the "
        "streams is a finite family (each cell record, its neighbours, unknown ids). Trusts the scanner as decided by C01/C02.",
    ),
    "C05": (
        f"{ABSINT} driven by symbolic parser events, all paths of the handlers",
        "Texts and style references are symbols; the document shapes (types, formulas, phonetic runs, nesting, blanks) are a "
        "finite family. Trusts the event model of expat and the eager interpretation of the background thread.",
    ),
    "C06": (
        f"{ABSINT} driven by parser events with symbolic texts split at symbolic places",
        "Pieces of text are symbols compared in a normal form of concatenation and strip; up to three runs and three pieces per run.",
    ),
    "C07": (
        f"{ABSINT} of both shared-string readers with symbolic items",
        "Every kind of item in every position of tables of up to three items; texts are symbols.",
    ),
    "C08": (
        f"{ABSINT}, null predicate as an uninterpreted predicate over symbolic texts",
        "Every way a cell holds a text, listed or not listed by each kind of null argument, in both formats and all row positions of the family.",
    ),
    "C09": (
        f"{ABSINT} including the worker, with a fault injected at every event and callback",
        "Exhaustive over the points of failure of sheets of three rows; the thread is interpreted in its entirety, its "
        "interleaving being irrelevant by C11. Trusts the models of Thread and the queues.",
    ),
    "C10": (
        f"{ABSINT} with a typestate of the queue (end marker, deadlock, blocking put)",
        "Every way the parse ends in sheets of up to five rows; a get that nobody answers and a put that nobody makes room for are deadlocks.",
    ),
    "C11": (
        "effect analysis: access sets of worker and consumer from the abstract interpretation, disjointness of writes",
        "Every access to variables, attributes and containers reachable from the worker is logged by phase; queues are the only exception.",
    ),
    "C12": (
        f"{ABSINT} of both readers over every arrangement of kept and empty rows",
        "All sequences of row kinds up to four rows, with and without kept empty rows; values are symbols.",
    ),
    "C13": (
        f"{ABSINT} of both readers with symbolic or enumerated skip and take",
        "Rows, skip and take enumerated together with all arrangements of empty rows, up to five rows.",
    ),
    "C14": (
        f"{ABSINT} of column arithmetic on symbolic letters and of both cell readers",
        "References of one to three symbolic letters with any digits; XLSB columns are symbols of their full range.",
    ),
    "C25": (
        f"{ABSINT} with a typestate of archives, parts and streams, faults injected everywhere",
        "Every part missing, damaged or failing before each of its records, raising callbacks, predicates and consumers, "
        "abandoned iterators and the read function as a whole; trusts the model of zipfile (what must be closed, what fails).",
    ),
    "C26": (
        f"{ABSINT} with an archive model in which opening an absent part raises",
        "All combinations of present and absent optional parts, with other parts of similar names.",
    ),
    "C27": (
        f"{ABSINT} of the sheet tables and lookups on a family of workbooks",
        "Relative, absolute and dotted targets, other kinds of entries, missing relationships, similar ids and names, up to 12 sheets.",
    ),
    "C28": (
        f"{ABSINT} of the styles of both readers on a family of format codes, symbolic built-in ids",
        "Every built-in id (a symbolic 16-bit id for XLSB) and a family of some thousand format codes (quotes, escapes, brackets, "
        "sections, letters) judged character by character by a rule written from the specification; both formats compared.",
    ),
    "C32": (
        f"{ABSINT} of the strict reader of strings, symbolic bytes and lengths",
        "Every declared count is compared with the bytes at hand; code units of every class (surrogates included) as ranges, "
        "cut records at every field. Trusts the models of struct and of the utf-16 codec.",
    ),
    "C33": (
        f"{ABSINT} of the writer and of the event handlers of the reader of relationships",
        "Attribute texts are composed of every class of XML character and of symbols; written and read back through a model of "
        "XML escaping, attribute normalisation and the events of expat.",
    ),
    "C34": (
        f"{ABSINT} of whole reads of both formats, one per option and value, and a query of unused parameters",
        "Small sheets of known values; for every option several values, their combinations with the options they depend on, "
        "and invalid values. Finite: interplays of three or more options are left to the other properties.",
    ),
    "C29": (
        f"{ABSINT} in a domain of exact numbers (affine forms over bits of symbolic codes)",
        "Every one of the 32 bits of each code is a symbol, so all codes are covered; all three builds. Trusts the models of "
        "NumPy views, shifts and the correctly rounded division.",
    ),
    "C30": (
        f"{ABSINT} in a domain of exact numbers (affine forms over intervals, rounding as an atom)",
        "Serials are symbols of the whole range of dates, in all orders of zones up to three cells, both formats and all "
        "builds. Rounding errors of double arithmetic are not modelled; known serials are exact double values.",
    ),
    "C31": (
        f"{ABSINT} with a model of strptime returning symbolic instants",
        "Instants are symbols of all years; every subset of formats matched by up to three texts, with Arrow and with Polars. "
        "Which texts a format matches is the library's affair and is an input of the model; the default formats are read by "
        "a model of strptime on known texts.",
    ),
    "C35": (
        f"{ABSINT} of both builds in one path, comparison of the symbolic results",
        "Conversions: symbolic codes, serials and instants (families of known values for the inverse ones); scanner: symbolic "
        "ids and sizes in every width. Declared element types of the compiled functions are applied; what a fastmath licence "
        "lets LLVM do with NaN is not modelled.",
    ),
    "C15": (
        f"{ABSINT} of the series over sequences of cells at symbolic values",
        "All sequences of up to three cells (four of fewer kinds) with gaps, repeated rows and changes of kind, both formats; "
        "rows are enumerated, values are symbols.",
    ),
    "C16": (
        f"{ABSINT} of windows and masks over columns of every layout of parts",
        "Every offset, length and mask up to beyond the end of columns of up to six rows; values are symbols. Trusts the "
        "models of Arrow slices, filters and concatenation.",
    ),
    "C17": (
        f"{ABSINT} of whole reads of both formats, every element traced to its cell",
        "Sheets of up to nine rows and four columns with gaps and shuffled first rows, headers, lookups, skips and filters of "
        "one to three columns under every strategy; values are symbols. Trusts the models of Arrow's masks and slices.",
    ),
    "C18": (
        f"{ABSINT} of whole reads of both formats, every element traced to its cell",
        "Every order in which three (thorough: four) columns first hold a value, in several places of the sheet; names, filters "
        "and types by name and by position; values are symbols.",
    ),
    "C19": (
        f"{ABSINT} of whole reads of both formats over a family of headers",
        "Every header of four columns over texts that repeat or look like told-apart ones, longer runs, lists of every length.",
    ),
    "C36": (
        f"{ABSINT} of whole reads of both formats over every pattern of empty header cells",
        "Every pattern of empty cells of headers of two to four rows and two to five columns, also below other rows.",
    ),
    "C20": (
        f"{ABSINT} of the conversions under each setting, texts classified by what they denote",
        "Columns of up to three parts of every kind in every order, with gaps and partial windows; whether a text denotes a "
        "number or a date in a format is an input of the model, the values are symbols.",
    ),
    "C21": (
        f"{ABSINT} of histories of reads with arrays that share memory",
        "Histories of two reads (three in the thorough tier) between added cells over columns of mixed kinds; the heap is exact.",
    ),
    "C22": (
        f"{ABSINT} of whole reads of both formats, compared with the casts of the read without types",
        "Every form of dtypes with twenty types and eight kinds of columns; names, positions, lookups and filters vary. Trusts "
        "the model of Arrow's cast (which pairs have a kernel, which values are refused), checked by hand against pyarrow 14.",
    ),
    "C23": (
        f"{ABSINT} in a domain of exact numbers, every element traced to its cell",
        "Every pair of representations under sequences of cuts, conversions and renderings, RK codes as symbolic bits.",
    ),
    "C24": (
        f"{ABSINT} with unchecked accesses modelled: taint of indices and sizes of buffers",
        "Indices of 32 symbolic bits (XLSB) and any integer (XLSX), cells of any number of bytes; the compiled scan, whose "
        "indices are unchecked, on streams that end anywhere. Trusts that the libraries check what they document to check.",
    ),
    "C37": (
        f"{ABSINT} in a domain of exact numbers over a family of columns in parts",
        "Values are symbols of whole numbers and of intervals of fractions, and known values around every limit; up to four "
        "parts of every source in every order.",
    ),
    "C38": (
        f"{ABSINT} of one abstract sheet read in both formats in one path, tables compared directly",
        "Sheets of up to nine rows and five columns of texts (shared or in place), numbers in a number format (doubles and short "
        "forms), dates, errors, empty and missing cells under some ninety settings of the options, and every column of up to three "
        "cells of these kinds; numbers and dates are symbols both formats share. Numbers of the General format and booleans are known "
        "to differ. What Excel itself writes differently into the two formats is not covered.",
    ),
    "C41": (
        f"{ABSINT} of histories of reads in one path, compared with reads on the state the modules load with",
        "Histories of two and three reads (and of iterations given up, refused reads and failing parts) over five other sheets, both "
        "formats and some thirty settings; two workbooks, or one twice, iterated in every order of up to three (thorough: four) "
        "first turns; numbers and dates are symbols. State outside the process (files) is not modelled.",
    ),
    "C42": (
        f"{ABSINT} of whole reads of both formats over every arrangement of matching cells",
        "Columns of up to five rows with matching, other, empty and non-text cells in every arrangement, two columns that match in "
        "different rows, sheets longer than the default lookup, seven kinds of patterns, columns by number, sizes 1 to 3 and the default. "
        "Which of several matching columns decides is left open.",
    ),
}
