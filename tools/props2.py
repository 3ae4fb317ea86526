CON = " The functions merge, subtract, from_str, extend_clamped, range_mask and extract_intervals are summarised by contracts; each contract is established from the function's own body by the same analysis (loop invariants, any number of intervals), and callers are checked to meet it. Quick: newest version in full plus one case per table and mask word for the others; thorough: every case for every version."

prop("P01", "A query returns exactly the code points it asks for", "For every valid query and every code point c: the returned intervals contain c exactly when c is not among exclude_characters and either c is among include_characters or c lies in [min, max] and its general category (in the query's version) is included (all are when include_categories is not given) and not excluded. Include characters apply whatever the range and categories; exclude characters win over everything.",
     ["inputs"], "every version, category sets, texts, range and code point", "2^60 pairs of category sets, unbounded texts, 2^40 ranges and two code paths (a bit mask for max < 256, tables otherwise); tests take a few hundred combinations",
     [C + "query.rs", C + "intervals.rs", C + "categories.rs", C + "lib.rs"], [("query, ascii_query, collect_in_range, extend_clamped, range_mask, extract_intervals", C + "query.rs"), ("merge, subtract, from_str", C + "intervals.rs"), ("merge", C + "categories.rs")], INT + " with proved function contracts", note=GEN + CON)
prop("P02", "Query results are canonical", "The intervals of every answered query are within 0..=0x10FFFF, each has start <= end, and they are sorted, disjoint and not even adjacent (so the result is the unique shortest list).",
     ["inputs"], "every version, category sets, texts and range", "depends on the order in which rows and characters are combined, and on coincidences at interval borders and mask word borders",
     [C + "query.rs", C + "intervals.rs"], [("query, ascii_query, collect_in_range", C + "query.rs"), ("merge, subtract, from_str", C + "intervals.rs")], INT + " with proved function contracts", note=GEN + CON)
prop("P04", "Queries never panic or overflow", "No query, whatever its version, sets, texts and 32-bit bounds, panics: no index is out of bounds, no arithmetic or shift overflows and nothing is unwrapped in vain, in builds with overflow checks as well.",
     ["inputs"], "every version, category sets, texts and pair of bounds", "the functions opt out of clippy's arithmetic checks on hand-made arguments; the failing input of a wrong argument is one in millions",
     [C + "query.rs", C + "intervals.rs", C + "lib.rs"], [("arithmetic and indexing", C + "query.rs"), ("arithmetic and indexing", C + "intervals.rs")], INT + " with proved function contracts", note=GEN + CON + " An obligation is an overflow, bounds or similar assertion in MIR on one abstract state.")

IS = [C + "intervalset.rs", C + "lib.rs"]
RANK = " The set is built from an arbitrary list of canonical intervals (any length, any values); around the tracked code point C the intervals before, at and after it are distinguished, so that the member before C and the member after it are known, and every other interval is a summary."
prop("P05", "Interval set membership", "For every interval set and every 32-bit number c: contains(c) is true exactly when one of the set's intervals contains c, index_of(c) is Some exactly then, and is_empty() holds exactly when len() is 0.",
     ["inputs"], "every interval set and every code point", "sets and code points are unbounded combinations; off-by-one errors show at interval borders and in gaps only",
     IS, [("IntervalSet::{new, contains, index_of, is_empty}", C + "intervalset.rs")], INT, note=GEN + RANK)
prop("P06", "index_of and codepoint_at are inverse bijections", "In every interval set index_of numbers the members 0, 1, 2, ... in ascending order up to len() - 1: the first member has index 0, consecutive members have consecutive indices and the last has index len() - 1. codepoint_at(index_of(c)) is c for each member c, and codepoint_at(i) is None for every i >= len().",
     ["inputs"], "every interval set, code point and index", "the numbering accumulates over all earlier intervals, so an error depends on lengths of intervals far from the place looked up",
     IS, [("IntervalSet::{new, index_of, codepoint_at, len}", C + "intervalset.rs")], INT, note=GEN + RANK + " That the numbering is a bijection onto 0..len() follows by induction over the members from the obligations checked (first, successor, last, inverse).")
prop("P07", "index_above counts the members below", "For every interval set and 32-bit number c, index_above(c) is the index of the smallest member >= c, or len() if there is none.",
     ["inputs"], "every interval set and code point", "differs from index_of only in gaps and beyond the ends; tests sample a few gaps of a few sets",
     IS, [("IntervalSet::index_above", C + "intervalset.rs")], INT, note=GEN + RANK)
prop("P08", "Interval set iteration", "Iterating an interval set, from the front, from the back or from both ends in any interleaving, yields each member exactly once and nothing else, ascending from the front and descending from the back; an exhausted iterator stays exhausted. iter() and IntoIterator agree.",
     ["inputs", "histories"], "every interval set and every interleaving of next and next_back", "interleavings of next and next_back over sets of any shape are unbounded; the two ends meet inside one interval only in some of them",
     IS, [("IntervalSet::iter, IntoIterator", C + "intervalset.rs")], INT, note=GEN)

prop("P19", "Query settings are independent and the last value counts", "A query built by any sequence of setter calls answers according to the value each setting was given last, or its default (all categories, none excluded, no characters, 0 and U+10FFFF) if never given; no setter changes another setting, categories may be given as a set, a single category or an Option, intervals() and interval_set() answer alike, a query is of the version it was made from, and the free function query() is of the latest version.",
     ["inputs", "histories"], "every sequence of setter calls with any arguments", "sequences of setter calls are unbounded and a setter that touches a second setting shows only after that setting was given, in that order",
     [C + "lib.rs", C + "query.rs", C + "intervalset.rs"], [("IntervalQuery and its setters", C + "lib.rs"), ("IntervalQuery::{intervals, interval_set}, query", C + "lib.rs")], INT + " with a proved contract of query::query", note=GEN + " The result of query::query is summarised by what P01 establishes about it; if that function is not found with its signature, its body is analysed in place.")

prop("P20", "Text forms of versions, categories, sets and errors", "Written with Display, a version is its release number, a category its abbreviation and a category set the abbreviations of its members in index order separated by ', ' (nothing for the empty set). Errors read \"'TEXT' is not a valid Unicode category\" (or \"version\"), 'Minimum codepoint should be less or equal than maximum codepoint. Got MIN < MAX' and 'Codepoints should be in [0; 1114111] range. Got: [MIN; MAX]', with the text and bounds as given.",
     ["inputs"], "every version, category and error with any text and bounds; category sets", "2^30 sets, unbounded texts and 32-bit numbers; tests write a handful",
     ["crates/unicode-intervals/src/"], [("Display for UnicodeCategory and UnicodeCategorySet", "crates/unicode-intervals/src/categories.rs"), ("Display for UnicodeVersion", "crates/unicode-intervals/src/lib.rs"), ("Display for Error", "crates/unicode-intervals/src/error.rs")], INT,
     note="Errors are decided for arbitrary texts and numbers (texts are kept as sequences of constant and given pieces). Sets are decided on an enumerated family: none, each single category, each pair, all but one, the first n and the last n; for other sets only through P13, which covers the iteration that Display relies on.")
PY = "crates/unicode-intervals-py/"
PYN = "Abstract interpretation of the binding's MIR compiled against stand-ins for pyo3 (pybind/): attribute macros become plain Rust calling conventions with the declared defaults, tuples and exceptions become plain values. That pyo3 itself converts arguments and results as documented is assumed."
prop("P21", "Python version objects", "In Python, UnicodeVersion(text) accepts exactly the bundled release numbers, returns the version whose str() is that text and raises ValueError naming the text otherwise; repr() shows the constructor call; latest() is the newest version.",
     ["inputs"], "every text and every version", "unbounded texts, and eleven hand-written pairs in each direction",
     [PY + "src/lib.rs"], [("PyUnicodeVersion and its conversions", PY + "src/lib.rs")], INT, note=PYN)
prop("P22", "Python query() forwards every argument", "Python's query() returns, as a tuple of (start, end) pairs in order, the core query of the given version (the latest if none is given) with each argument used as what it is named after; an argument that is not given, or None where None is accepted, is no restriction, an empty list of categories admits nothing but the included characters, and exactly the invalid calls (an unknown abbreviation anywhere in a list, a 32-bit bound above U+10FFFF, min above max) raise ValueError (bounds beyond 32 bits are the OverflowError of the conversion).",
     ["inputs"], "every combination of arguments: lists of any length, any texts, any bounds, every version", "seven optional arguments with lists and texts of any length; two swapped or dropped arguments agree on most samples",
     [PY + "src/lib.rs"], [("query, parse_categories", PY + "src/lib.rs")], INT + " with a proved contract of query::query", note=PYN + " One argument is looked at per case, the others at their defaults; category lists are arbitrary (any length, any names, known or not).")
prop("P23", "Python categories() and its cache", "Python's categories(version) is the tuple of the abbreviations of that version's normalized categories in order (the latest version by default), whatever versions were asked for before.",
     ["inputs", "histories"], "every version and every history of calls", "the result is cached per version, so a wrong slot shows only after calls for two particular versions",
     [PY + "src/lib.rs"], [("categories, CATEGORIES_CACHE", PY + "src/lib.rs")], INT, note=PYN + " The cache is modelled as one write-once cell per slot; the calls are made for all versions in turn in one history, which meets every pair of versions that share a slot.")
prop("P24", "Python as_general_categories()", "Python's as_general_categories(list, version) raises ValueError exactly when the list has an unknown designation; otherwise it returns the abbreviations of the core function's result, in its order, for the given version (the latest by default).",
     ["inputs"], "every list and version", "lists of any length; default version against given one",
     [PY + "src/lib.rs"], [("as_general_categories", PY + "src/lib.rs")], INT, note=PYN + " Acceptance is decided for arbitrary lists; that the names are those of the core result, in order, for each class, each name, all names, repetitions and mixtures.")
prop("P25", "Contents of the Python module", "The extension module exports UnicodeVersion, query, categories, as_general_categories, available_versions and __version__ and nothing else; available_versions lists every bundled version once, oldest first; __version__ is the package version; query takes keyword arguments only; and the package re-exports each under its own name.",
     ["inputs"], "all exports", "a listing of one order and one set of names; tests do not compare all of it",
     [PY + "src/lib.rs", PY + "python/unicode_intervals/__init__.py"], [("module init", PY + "src/lib.rs"), ("re-exports", PY + "python/unicode_intervals/__init__.py")], INT + "; rule over the Python syntax tree of the package", note=PYN)

prop("P26", "Answers depend on the arguments alone", "The core crate keeps no state between calls and looks at nothing outside its arguments: none of its functions reads or writes a mutable static or a thread-local, or asks the environment, the clock, a file, the current thread or a source of randomness. Equal calls therefore give equal answers, in any order and from any number of threads.",
     ["histories", "schedules"], "every history and schedule of calls", "a remembered value shows only after a particular earlier call, or between two threads; tests call each function in one order from a fresh process",
     ["crates/unicode-intervals/src/"], [("all functions", "crates/unicode-intervals/src/")], "rule over MIR: effects of every reachable function of the crate",
     note="Statics with interior mutability or static mut, thread-locals and calls to std's environment, time, file, process, thread and random functions, in every function of the crate that the analysed program reaches. A constant worked out late (LazyLock) is allowed; a write-once cell is reported as not decided. The other properties analyse one call from a fresh state; this one is why that is enough.")

prop("P27", "The type stub describes the Python module", "Everything the type stub of the Python package declares is so: the module has exactly the declared public names and version attributes, its functions take the declared parameters in the declared order, positionally or by keyword only as declared, optional exactly where declared so, accept every value of the declared types (None exactly where allowed), and return the declared kinds of values.",
     ["programs", "inputs"], "every Python program that type-checks against the stub, and every value of a declared type", "no test reads the stub; a call that type-checks may raise TypeError, and one that works may be rejected by a type checker",
     [PY + "python/unicode_intervals/__init__.pyi", PY + "src/lib.rs"], [("type stub", PY + "python/unicode_intervals/__init__.pyi"), ("signatures of the exported functions and methods", PY + "src/lib.rs")], "rule over the stub's syntax tree and the binding's declared signatures",
     note="The binding's signatures are read off its declarations as pyo3's macros see them; which Python types convert to which Rust types is a table of pyo3's documented conversions (a Vec takes a sequence, not any iterable).")

prop("P28", "Cost of a query", "A query costs time and memory in proportion to the intervals of the included categories, and small ranges are answered without looking at the tables.",
     ["inputs"], "every query", "tests assert results, not costs",
     ["crates/unicode-intervals/src/query.rs"], [("ascii_query, collect_in_range", "crates/unicode-intervals/src/query.rs")],
     na="A bound on running time and allocation quantifies over run-time quantities (numbers of intervals and reallocations); loop bounds relative to input sizes are outside what the abstract domains express, and the mask path being taken is not observable behaviour.")
prop("P29", "Regenerating a table reproduces it", "Running the table generator for a bundled version writes the table that is in the repository.",
     ["inputs"], "every bundled version", "the generator downloads its input; no test runs it",
     ["generate_tables.py", "crates/unicode-intervals/src/tables/"], [("transform_code", "generate_tables.py")],
     na="The outcome is a function of a download from unicode.org and of the external program ucd-generate, neither of which is part of the source; what the tables must contain is decided by P16, P17 and P18.")
