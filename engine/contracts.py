"""Functions summarised by a contract: the contract is proved from the function's body by a harness of
its own and its model (a witness function of the same signature) then stands for the function elsewhere.
A function that is gone, renamed or has another signature has no contract and is analysed in place."""

# name -> (possible paths, model root)
TABLE = {
    "merge": (("intervals::merge",), "h_c_merge"),
    "subtract": (("intervals::subtract",), "h_c_subtract"),
    "from_str": (("intervals::from_str",), "h_c_from_str"),
    "extend_clamped": (("query::extend_clamped",), "h_c_extend_clamped"),
    "range_mask": (("query::range_mask",), "h_c_range_mask"),
    "extract_intervals": (("query::extract_intervals",), "h_c_extract_intervals"),
    "query": (("query::query",), "h_c_query"),
    "set_new": (("IntervalSet::new",), "h_c_set_new"),
}
CRATE = "unicode_intervals::"


def sig(p, i):
    b = p.insts[i]["body"]
    return tuple(b["locals"][:b["argc"] + 1])


def resolve(p):
    """name -> instance"""
    r = getattr(p, "_targets", None)
    if r is None:
        r = p._targets = {}
        for n, (paths, model) in TABLE.items():
            if model not in p.roots:
                continue
            m = p.roots[model]
            c = [i for i, x in p.insts.items() if x["name"].startswith(CRATE) and any(x["name"] == CRATE + q or x["name"].endswith("::" + q) for q in paths) and x.get("body")]
            c = [i for i in c if sig(p, i) == sig(p, m)]
            if len(c) == 1:
                r[n] = c[0]
    return r


def mapping(p, names):
    t = resolve(p)
    return {t[n]: p.roots[TABLE[n][1]] for n in names if n in t}
