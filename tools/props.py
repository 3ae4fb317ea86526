#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (source of truth for ids, texts and levels)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/unicode-intervals/src/"
PY = "crates/unicode-intervals-py/"
INT = "abstract interpretation of MIR"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, level="proof", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, level=level, note=note, na=na))


GEN = "Sound over all inputs up to the abstraction: every obligation is discharged on the abstract states reached from a generic harness. Trusts rustc MIR, the interpreter's transfer functions and std models; cases it cannot decide are listed as undecided and not counted as discharged."

prop("P03", "Invalid code point ranges are rejected, and only those", "intervals() and interval_set() return CodepointNotInRange(min, max) when either bound exceeds U+10FFFF, otherwise InvalidCodepoints(min, max) when min > max. The error carries the bounds as given.",
     ["inputs"], "every version and every pair of 32-bit bounds outside 0 <= min <= max <= 0x10FFFF", "2^64 pairs of bounds; tests sample a few at the edges",
     [C + "lib.rs"], [("UnicodeVersion::intervals_impl", C + "lib.rs"), ("IntervalQuery::intervals / interval_set", C + "lib.rs")], INT, note=GEN)
prop("P09", "Version names: as_str, FromStr, ALL and latest agree", "as_str of each version is its release number, parsing accepts exactly these texts and returns that version, any other text yields InvalidVersion carrying it. ALL lists every version in release order and latest() is the newest.",
     ["inputs"], "every text and every version", "the set of texts is infinite; near misses (white space, prefixes, case) are not enumerable by tests",
     [C + "lib.rs"], [("UnicodeVersion::{as_str, from_str, ALL, latest}", C + "lib.rs")], INT, note=GEN)
prop("P10", "Category names: as_str, FromStr and long constants agree", "Each category's as_str is its two-letter abbreviation, parsing accepts exactly the 30 abbreviations and inverts as_str, any other text yields InvalidCategory carrying it. Each long-name constant denotes the category of that name.",
     ["inputs"], "every text and every category", "the set of texts is infinite",
     [C + "categories.rs"], [("UnicodeCategory::{as_str, from_str}", C + "categories.rs")], INT, note=GEN)
prop("P11", "Each version exposes its own table, one row per category", "For every version v, category k and code point c, intervals_for(k) of v contains c exactly when k is the general category of c in Unicode v, and table() has one row per category.",
     ["inputs"], "every version, category and code point", "11 x 30 x 1,114,112 combinations through index arithmetic and match arms; tests check a few",
     [C + "lib.rs", C + "tables/"], [("UnicodeVersion::table, intervals_for", C + "lib.rs"), ("BY_NAME", C + "tables/*.rs")], INT, note=GEN + " Reference data: data/ucd.txt, fixed at the pinned revision and cross-checked against independent copies of the Unicode data (DESIGN.md).")
prop("P12", "Category set algebra", "For all sets s, t and categories x, k: k is in s|t iff in s or t, in s|x iff in s or k = x, in x|y iff k is x or y; add and remove change exactly the named member; new() is empty, all() is full, conversions from a category give the singleton.",
     ["inputs"], "all 2^30 sets and all categories", "2^60 pairs of sets; tests use a handful, mostly disjoint",
     [C + "categories.rs"], [("UnicodeCategorySet operators, add, remove, contains", C + "categories.rs")], INT, note=GEN)
prop("P13", "Category set size and iteration", "len() is the number of members, is_empty() agrees with it, and iteration yields every member exactly once in increasing index order. The iterator's len() and size_hint() are exact at every step.",
     ["inputs"], "all 2^30 sets", "2^30 sets; tests use a handful",
     [C + "categories.rs"], [("UnicodeCategorySet::{len, is_empty, iter}", C + "categories.rs"), ("categories::Iter", C + "categories.rs")], INT, note=GEN)
prop("P14", "Major classes and as_general_categories", "A category belongs to class constant L, M, N, P, S, Z or C exactly when its abbreviation starts with that letter. as_general_categories returns exactly the categories designated by its entries (abbreviations or class letters), without duplicates and in the order of normalized_categories, and fails with InvalidCategory exactly when some entry is neither.",
     ["inputs"], "every version, category and every finite sequence of texts", "sequences of texts are unbounded; order, repetition and mixtures of classes and members matter",
     [C + "categories.rs"], [("as_general_categories", C + "categories.rs"), ("class constants L..C", C + "categories.rs")], INT, note=GEN)
prop("P15", "normalized_categories is a sorted permutation", "For every version normalized_categories() holds each category exactly once, ordered by number of intervals with ties ordered by abbreviation, except that Cc and Cs come last in this order.",
     ["inputs"], "every version", "the order depends on the data of each of the 11 tables; tests list it for few",
     [C + "lib.rs", C + "categories.rs"], [("UnicodeVersion::normalized_categories", C + "lib.rs"), ("abbrev_rank", C + "categories.rs")], INT, note=GEN)
prop("P16", "Every table partitions the code space canonically", "In every version each row is sorted, disjoint and non-adjacent, all ranges lie in 0..=0x10FFFF, and each code point is in exactly one row.",
     ["inputs"], "every version, row and code point", "12 million (version, code point) pairs in generated tables",
     [C + "tables/"], [("BY_NAME and its rows", C + "tables/*.rs")], "exhaustive rule over the evaluated constant tables", note="Decides the finite table data completely; rows are read from the compiler's evaluated constants through the public accessor.")
prop("P17", "Tables equal the published Unicode data", "For each bundled version the table rows are exactly the general-category ranges published for that version of Unicode.",
     ["inputs"], "every version and code point", "tests sample code points; the tables have about 35,000 ranges",
     [C + "tables/"], [("BY_NAME and its rows", C + "tables/*.rs")], "exhaustive comparison of evaluated constants with reference data", note="Complete over the finite data, relative to data/ucd.txt (fixed at the pinned revision and cross-checked at that time against independent copies: Unicode 13, 15.0 and age data; see DESIGN.md).")
prop("P18", "Tables respect the Unicode stability policy", "Between consecutive versions no assigned code point becomes unassigned, and the surrogate, private-use, line-separator, paragraph-separator and control rows do not change.",
     ["inputs", "histories"], "every pair of consecutive versions and every code point", "requires relating all versions at every code point",
     [C + "tables/"], [("BY_NAME and its rows", C + "tables/*.rs")], "exhaustive rule over the evaluated constant tables", note="Complete over the finite data.")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s" % p["id"], "thorough_cmd": "bash check.sh %s --thorough" % p["id"],
                            "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for f, s in (("MANIFEST.json", "MANIFEST"),):
    import importlib.util
    if importlib.util.find_spec("jsonschema"):
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/%s.schema.json" % s)))
        ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(V, "properties.jsonl")):
            jsonschema.validate(json.loads(l), ps)
        print("valid", len(P))
