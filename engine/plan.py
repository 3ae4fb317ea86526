"""Which analysis cases and rules decide which property."""
import rows, pyrule, staterule

NV, NC = 11, 30
LATEST = 10


def J(h, **k):
    d = {"h": h}
    d.update(k)
    nm = h + "".join(" %s=%s" % (a, k[a]) for a in ("ver", "param", "cat") if a in k)
    d["name"] = nm
    return d


def p03(t):
    return [J("h_validate", param=v) for v in range(NV)], []


def p09(t):
    return [J("h_version_names", param=i) for i in range(NV)] + [J("h_version_parse", param=i) for i in range(NV + 1)], []


def p10(t):
    return [J("h_category_names", param=i) for i in range(NC)] + [J("h_category_parse", param=i) for i in range(NC + 1)], []


def p11(t):
    return [J("h_table", ver=v) for v in range(NV)], []


def p12(t):
    return [J("h_set_ops", ver=LATEST)], []


def p13(t):
    return [J("h_set_len", ver=LATEST), J("h_set_iter", ver=LATEST), J("h_set_iter_len", ver=LATEST)], []


def p14(t):
    vs = range(NV) if t == "thorough" else (LATEST,)
    return ([J("h_major", param=i) for i in range(NC)] + [J("h_general", ver=v, param=i, cat=i, w=5) for v in vs for i in range(NC)]
            + [J("h_general_order", ver=v, obs=False, w=3) for v in range(NV)]), []


def p15(t):
    return [J("h_normalized", ver=v, obs=False) for v in range(NV)], []


CT = ("merge", "subtract", "from_str", "extend_clamped", "range_mask", "extract_intervals")


def provers():
    """the contracts the query jobs rely on, each established from the function's own body"""
    r = [J("h_merge", param=i, ver=LATEST, of="merge") for i in range(2)]
    r += [J("h_subtract", param=i, ver=LATEST, of="subtract") for i in range(4)]
    r += [J("h_from_str", param=i, ver=LATEST, of="from_str", ct=("merge",)) for i in range(2)]
    r += [J("h_extend_clamped", param=i, ver=LATEST, of="extend_clamped") for i in range(24)]
    r += [J("h_range_mask", param=i, ver=LATEST, of="range_mask") for i in range(5)]
    r += [J("h_extract_intervals", param=i, ver=LATEST, of="extract_intervals") for i in range(9)]
    return r


def Q(ver, param):
    return J("h_query", ver=ver, param=param, ct=CT, w=4 if param < 96 else 3)


# include given / include has K / exclude has K (without include its membership does not matter)
SETS = [0, 4] + [1 + 2 * b for b in range(4)]


def p01(t):
    ps = [32 * r + 8 * ch + s for r in range(7) for ch in range(4) for s in SETS]
    jobs = [Q(v, p) for v in (range(NV) if t == "thorough" else (LATEST,)) for p in ps]
    if t != "thorough":
        # per-version data: the masks of the fast path and one general range
        jobs += [Q(v, 32 * r) for v in range(NV) if v != LATEST for r in (0, 1, 2, 3, 6)]
    return provers() + jobs, []


def p02(t):
    # C is a code point no text holds (a surrogate, say): every query is among these cases
    return provers() + [Q(v, 32 * r + s) for v in (range(NV) if t == "thorough" else (LATEST,)) for r in (4, 5, 6) for s in SETS], []


def p04(t):
    return provers() + [Q(v, 32 * r + s) for v in (range(NV) if t == "thorough" else (LATEST,)) for r in (4, 5, 6) for s in SETS] + p03(t)[0], []


def rank(t):
    return [J("h_set_rank", ver=LATEST, param=i) for i in range(8)] + [J("h_set_beyond", ver=LATEST, param=i) for i in range(4)], []


def p08(t):
    return ([J("h_set_codepoints", ver=LATEST, param=i, w=2) for i in range(12)]
            + [J("h_set_codepoints_more", ver=LATEST, param=i, w=2) for i in range(14)]), []


def p19(t):
    """per setting: builder from a version, from the free function, through interval_set, other argument types"""
    B = lambda v, q, **k: J("h_builder", ver=v, param=q, ct=("query",), limit=60, **k)
    jobs = [B(v, f) for v in (range(NV) if t == "thorough" else (0, LATEST)) for f in range(6)]
    jobs += [B(LATEST, f + 16) for f in range(6)] + [B(LATEST, f + 8, w=3) for f in range(6)] + [B(LATEST, f + 32) for f in (0, 1)]
    return jobs, []


def p20(t):
    return [J("h_text", param=i, obs=False) for i in range(45)] + [J("h_set_text", param=i, obs=False) for i in range(NC)], []


def p21(t):
    return ([J("h_py_version", param=i, obs=False) for i in range(NV)] + [J("h_py_version_parse", param=i, ver=LATEST) for i in range(NV + 1)]
            + [J("h_py_texts", param=i, ver=LATEST) for i in range(NV + 1)]), []


def p22(t):
    Y = lambda f, **k: J("h_py_query", param=f, ct=("query",), limit=60 if f == 4 else None, **dict({"ver": LATEST}, **k))
    jobs = [Y(f, cat=c) for f in (0, 1) for c in range(NC)] + [Y(f) for f in (8, 9, 2, 10, 3, 11, 4, 13)]
    jobs += [Y(5, ver=v) for v in range(NV)] + [J("h_py_query_lists", param=i, ver=LATEST, ct=("query",)) for i in range(4)]
    jobs += [J("h_py_query_all", param=q, ver=LATEST, cat=c, ct=("query",)) for c in (0, 11, 28) for q in range(4)]
    jobs += [J("h_py_short", param=q, ver=LATEST, cat=c, ct=("query",)) for c in (1, 12, 29) for q in range(10)]
    jobs += [J("h_py_unknown", param=q, ver=LATEST, ct=("query",)) for q in range(8)]
    return jobs, []


def p23(t):
    return [J("h_py_categories", obs=False)], []


def p24(t):
    return ([J("h_py_unknown", param=8 + q, ver=LATEST, obs=False) for q in range(4)] + [J("h_py_general", param=g, ver=v, obs=False) for v, g in [(v, 0) for v in range(NV)] + [(LATEST, 1)]]
            + [J("h_py_general_names", param=g, ver=v, obs=False, w=9) for v, g in [(v, 0) for v in (range(NV) if t == "thorough" else (0, 5, LATEST))] + [(LATEST, 1)]]), []


def p25(t):
    return [J("h_py_module", obs=False)], [pyrule.reexports]


CRATE = {p: "pybind" for p in ("P21", "P22", "P23", "P24", "P25")}
CRATE["P27"] = "pystub"

TABLE = {"P20": p20, "P21": p21, "P22": p22, "P23": p23, "P24": p24, "P25": p25, "P19": p19, "P05": rank, "P06": rank, "P07": rank, "P08": p08, "P01": p01, "P02": p02, "P04": p04, "P03": p03, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15,
         "P16": lambda t: ([], [rows.partition]), "P17": lambda t: ([], [rows.reference]), "P18": lambda t: ([], [rows.stability]), "P26": lambda t: ([], [staterule.state]),
         "P27": lambda t: ([], [pyrule.stub])}


def plan(prop, tier):
    return TABLE[prop](tier)


def needs_dump(prop):
    return True


# messages about contracts: C1 what a function computes, C2 the form of it, CP what its callers owe it
ALSO = {"P01": ("C1", "CP"), "P02": ("C2", "CP")}


def counts(prop, msg):
    return msg.split(" ")[0] in (prop,) + ALSO.get(prop, ())


NO_OBLIGATION = ("P04",)


def relevant(prop, a):
    if a["kind"] in ("prove", "unreachable"):
        return counts(prop, a["msg"])
    return True


LEVEL = {}
TRUSTED = ["rustc's MIR for the crate and the std functions it calls (nightly, overflow checks and debug assertions on)",
           "the abstract interpreter in engine/ and its transfer functions for std primitives (engine/prims.py, engine/primlib.py)",
           "the models of std iterator adaptors in witness/src/m.rs"]
PY_TRUSTED = ["pybind/: the stand-in for pyo3 the binding is compiled against (argument conversion by type, defaults from the signature, tuples, exceptions, module registration)"]
ASSUMPTIONS = ["allocation does not fail", "the dependencies of the crate (std) meet their documentation"]

TXT = "Abstract interpretation of the crate's MIR from a generic harness: one arbitrary code point C and one arbitrary category K are tracked through every value; obligations are decided for all inputs at once."
RULES = {
    "P16": "Every row of every table (read from the evaluated constants through UnicodeVersion::intervals_for) is sorted, disjoint and non-adjacent, and the rows of a version partition 0..=0x10FFFF.",
    "P17": "Every row of every table equals the row of the reference data in data/ucd.txt (fixed at the pinned revision and cross-checked at that time against independent copies of the Unicode general-category data; see DESIGN.md).",
    "P26": "Every function of the core crate in the analysed program: no use of a mutable static or a thread-local, no call of std's environment, time, file, network, process, thread-identity or randomness functions; no type of the crate holds a cell, an atomic, a lock or an Rc.",
    "P27": "Every declaration of the type stub against the signatures of the binding's exported functions and methods (names, kinds and order of parameters, defaults, None, types that convert) and the variants of its version class.",
    "P18": "Consecutive versions: the unassigned set only shrinks; Cs, Co, Zl, Zp and Cc rows are identical.",
}


PYTXT = "Abstract interpretation of the binding's MIR, compiled against stand-ins for pyo3's types and macros, from one harness per entry point with arbitrary arguments (lists of any length made up as they are read)."


def trusted(prop):
    return TRUSTED + (PY_TRUSTED if prop in CRATE else [])


def rule_text(prop):
    if prop in CRATE and prop not in RULES:
        return PYTXT
    return RULES.get(prop, TXT)
