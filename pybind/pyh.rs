//! Harnesses for the Python binding; compiled as a module of the binding's own crate.
use super::v;
use super::__class_UnicodeVersion as PyUnicodeVersion;
use unicode_intervals_core::{Error, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};
use pyo3::prelude::*;
use pyo3::types::PyTuple;

type Interval = (u32, u32);
const VERSIONS: [&str; 11] = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"];
const VERS: [UnicodeVersion; 11] = {
    use UnicodeVersion::*;
    [V9_0_0, V10_0_0, V11_0_0, V12_0_0, V12_1_0, V13_0_0, V14_0_0, V15_0_0, V15_1_0, V16_0_0, V17_0_0]
};
const PYVERS: [PyUnicodeVersion; 11] = {
    type P = PyUnicodeVersion;
    [P::V9_0_0, P::V10_0_0, P::V11_0_0, P::V12_0_0, P::V12_1_0, P::V13_0_0, P::V14_0_0, P::V15_0_0, P::V15_1_0, P::V16_0_0, P::V17_0_0]
};

fn pick(bit: u32) -> bool {
    v::param() >> bit & 1 == 1
}

/// Version objects: the members, the texts and the order of available_versions.
pub fn h_py_version() {
    let i = v::param() as usize;
    let x = PYVERS[i];
    v::prove(x.__str__() == VERSIONS[i], "P21 str of a version is its release number");
    match PyUnicodeVersion::__py_new(VERSIONS[i]) {
        Ok(y) => v::prove(y == x, "P21 UnicodeVersion(text) is the version of that name"),
        Err(_) => v::unreachable("P21 every release number is accepted"),
    }
    v::prove(PyUnicodeVersion::__py_latest() == PYVERS[10], "P21 latest");
}

pub fn h_py_version_parse() {
    let i = v::param() as usize;
    let s = v::any_str(false);
    let mut known = false;
    let mut j = 0;
    while j < VERSIONS.len() {
        if s == VERSIONS[j] {
            v::assume(i == j);
            known = true;
        }
        j += 1;
    }
    v::assume(known == (i < VERSIONS.len()));
    match PyUnicodeVersion::__py_new(s) {
        Ok(x) => {
            v::prove(known, "P21 other texts are rejected");
            v::prove(x.__str__() == s, "P21 str inverts the constructor");
        }
        Err(e) => {
            v::prove(!known, "P21 every release number is accepted");
            v::prove(e.kind == 1, "P21 an unknown version raises ValueError");
        }
    }
}

const NAMES: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps", "Lo", "No", "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];
const CLASSES: [&str; 7] = ["C", "L", "M", "N", "P", "S", "Z"];

/// An arbitrary list of category names; remembers whether K is among them and whether one is unknown.
struct Entries {
    name: &'static str,
    class: &'static str,
    /// the one-letter designations count as known
    classes: bool,
    wanted: bool,
    bad: bool,
}

const CLASS_OF: [usize; 30] = {
    let mut r = [0; 30];
    let mut i = 0;
    while i < 30 {
        let mut j = 0;
        while j < 7 {
            if NAMES[i].as_bytes()[0] == CLASSES[j].as_bytes()[0] {
                r[i] = j;
            }
            j += 1;
        }
        i += 1;
    }
    r
};

fn entries(classes: bool) -> Entries {
    let k = v::obs_category() as usize;
    Entries { name: NAMES[k], class: CLASSES[CLASS_OF[k]], classes, wanted: false, bad: false }
}

pub fn h_lazy_next(e: &mut Entries) -> Option<String> {
    if v::nondet_bool() {
        return None;
    }
    if v::fork() {
        let s = v::any_str(false);
        let mut j = 0;
        while j < 30 {
            v::assume(s != NAMES[j]);
            j += 1;
        }
        if e.classes {
            let mut j = 0;
            while j < 7 {
                v::assume(s != CLASSES[j]);
                j += 1;
            }
        }
        e.bad = true;
        return Some(String::from(s));
    }
    let s = if e.classes && v::fork() {
        let j = v::nondet_usize();
        v::assume(j < 7);
        CLASSES[j]
    } else {
        let j = v::nondet_usize();
        v::assume(j < 30);
        NAMES[j]
    };
    if s == e.name || e.classes && s == e.class {
        e.wanted = true;
    }
    Some(String::from(s))
}

/// What P01 establishes for query::query, used in its place.
pub fn h_c_query(version: UnicodeVersion, inc: Option<UnicodeCategorySet>, exc: UnicodeCategorySet, ic: &str, ec: &str, lo: u32, hi: u32) -> Vec<Interval> {
    v::prove(version as u32 == v::the_version() as u32, "P22 the query is of the version asked for, by default the latest");
    let (c, k) = (v::obs_c(), v::obs_category());
    let allowed = match inc { Some(s) => s.contains(k), None => true } && !exc.contains(k);
    if (lo <= c && c <= hi && allowed || v::str_has(ic)) && !v::str_has(ec) { v::any_canonical(true) } else { v::any_canonical(false) }
}

fn pairs(r: &PyTuple) -> &[Interval] {
    v::prove(r.kind == 1, "P22 the result is a tuple of pairs");
    v::prove(v::canonical(&r.pairs), "P22 the pairs are those of the core query, in order");
    &r.pairs
}

/// query(...): what each argument means. param: the argument looked at (0 categories, 1 exclude_categories,
/// 2 include_characters, 3 exclude_characters, 4 min/max, 5 version), +8: not given.
pub fn h_py_query() {
    let (f, absent) = (v::param() & 7, v::param() & 8 != 0);
    let c = v::obs_c();
    let mut e = entries(false);
    let b = (f == 2 || f == 3 || f == 5) && v::fork();
    let text = if absent || f != 2 && f != 3 { None } else { Some(v::any_str(b)) };
    let (lo, hi) = (v::nondet_u32(), v::nondet_u32());
    let (gl, gh) = (f == 4 && v::fork(), f == 4 && v::fork());
    let cats = if f == 2 { Some(Some(Vec::new())) } else { None };
    let inc = if f == 0 && !absent { Some(Some(v::lazy(&mut e))) } else { cats };
    let exc = if f == 1 && !absent { Some(Some(v::lazy(&mut e))) } else { None };
    let mut lo_ = None;
    let mut hi_ = None;
    if gl { lo_ = Some(Some(lo)) }
    if gh { hi_ = Some(Some(hi)) }
    let ver = if absent { if b { Some(None) } else { None } } else { Some(Some(PYVERS[v::the_version() as usize])) };
    let r = super::__call_query__categories__exclude_categories__exclude_characters__include_characters__max_codepoint__min_codepoint__version(
        inc, exc, if f == 3 { text } else { None }, if f == 2 { text } else { None }, hi_, lo_, ver);
    let (l, h) = (if gl { lo } else { 0 }, if gh { hi } else { 0x10FFFF });
    let valid = match f {
        0 | 1 => !e.bad,
        4 => l <= h && l <= 0x10FFFF && h <= 0x10FFFF,
        _ => true,
    };
    let want = match f {
        0 => absent || e.wanted,
        1 => !e.wanted,
        2 => !absent && b,
        3 => absent || !b,
        4 => l <= c && c <= h,
        _ => true,
    };
    match r {
        Ok(t) => {
            v::prove(valid, "P22 invalid arguments raise an exception");
            v::prove(v::has(pairs(t.0)) == want, "P22 the arguments of query mean what they are named after");
        }
        Err(x) => {
            v::prove(!valid, "P22 valid arguments are accepted");
            v::prove(x.kind == 1, "P22 invalid arguments raise ValueError");
        }
    }
}

/// query(...) with everything given at once: one of the lists (param 0 categories, 1 exclude_categories)
/// arbitrary, the other empty or of one name.
pub fn h_py_query_all() {
    let first = v::param() & 1 == 0;
    let c = v::obs_c();
    let mut e = entries(false);
    let narrow = v::param() & 2 != 0;
    let (one, ib, xb) = (v::fork(), !narrow && v::fork(), !narrow && v::fork());
    let other = if one { vec![String::from(e.name)] } else { Vec::new() };
    let (it, et) = (v::any_str(ib), v::any_str(xb));
    let (lo, hi) = if narrow { (0x1000, 0xFFFF) } else { (0, 0x10FFFF) };
    let inside = lo <= c && c <= hi;
    let any = v::lazy(&mut e);
    let (inc, exc) = if first { (any, other) } else { (other, any) };
    let r = super::__call_query__categories__exclude_categories__exclude_characters__include_characters__max_codepoint__min_codepoint__version(
        Some(Some(inc)), Some(Some(exc)), Some(et), Some(it), Some(Some(hi)), Some(Some(lo)), Some(Some(PYVERS[v::the_version() as usize])));
    let (i, x) = if first { (e.wanted, one) } else { (one, e.wanted) };
    let want = (inside && i && !x || ib) && !xb;
    match r {
        Ok(t) => {
            v::prove(!e.bad, "P22 invalid arguments raise an exception");
            v::prove(v::has(pairs(t.0)) == want, "P22 the arguments of query, given together, mean what they mean alone");
        }
        Err(x) => {
            v::prove(e.bad, "P22 valid arguments are accepted");
            v::prove(x.kind == 1, "P22 invalid arguments raise ValueError");
        }
    }
}

/// An absent list is no restriction; an empty one is.
pub fn h_py_query_lists() {
    let c = v::obs_c();
    let none = v::param() & 1 != 0;
    let r = super::__call_query__categories__exclude_categories__exclude_characters__include_characters__max_codepoint__min_codepoint__version(
        Some(if none { None } else { Some(Vec::new()) }), Some(if v::param() & 2 != 0 { None } else { Some(Vec::new()) }), None, None, Some(None), Some(None), None);
    match r {
        Ok(t) => v::prove(v::has(pairs(t.0)) == none, "P22 an empty list of categories admits nothing, no list admits all"),
        Err(_) => v::unreachable("P22 valid arguments are accepted"),
    }
}

/// categories(version), for every version one after the other, then again.
pub fn h_py_categories() {
    let mut j = 0;
    while j < 24 {
        let (w, arg) = if j == 11 { (VERS[10], None) } else if j == 23 { (VERS[10], Some(None)) } else { (VERS[j % 12], Some(Some(PYVERS[j % 12]))) };
        match super::__call_categories__version(arg) {
            Ok(t) => {
                let o = w.normalized_categories();
                v::prove(t.0.kind == 2 && t.0.names.len() == 30 && o.len() == 30, "P23 categories() has one name per category");
                let mut i = 0;
                while i < 30 {
                    v::prove(t.0.names[i].as_str() == o[i].as_str(), "P23 categories(version) names the normalized categories of that version in order");
                    i += 1;
                }
            }
            Err(_) => v::unreachable("P23 categories() does not fail"),
        }
        j += 1;
    }
}

/// formatting the engine may need
pub fn h_display(f: &mut std::fmt::Formatter<'_>, a: &UnicodeCategory, b: &UnicodeVersion, e: &Error, s: &UnicodeCategorySet) {
    use std::fmt::Display;
    let _ = a.fmt(f);
    let _ = b.fmt(f);
    let _ = e.fmt(f);
    let _ = s.fmt(f);
}

/// a text that is no designation (classes: the one-letter ones are designations)
fn unknown(classes: bool) -> &'static str {
    let s = v::any_str(false);
    let mut j = 0;
    while j < 30 {
        v::assume(s != NAMES[j]);
        j += 1;
    }
    let mut j = 0;
    while j < 7 {
        if classes {
            v::assume(s != CLASSES[j]);
        }
        j += 1;
    }
    s
}

fn list_with(s: &'static str) -> Vec<String> {
    let s = String::from(s);
    match v::param() & 3 {
        0 => vec![s],
        1 => vec![String::from("Lu"), s],
        2 => vec![s, String::from("Zs")],
        _ => vec![String::from("Nd"), s, String::from("Nd")],
    }
}

/// Lists of known length with one unknown name, as written out; for functions that do more with
/// the list than walk through it once. param: the list, +4: exclude_categories, +8: as_general_categories
pub fn h_py_unknown() {
    let p = v::param();
    let l = list_with(unknown(p & 8 != 0));
    let r = if p & 8 != 0 {
        super::__call_as_general_categories__categories__version(Some(l), None).err().map(|x| x.kind)
    } else {
        let (inc, exc) = if p & 4 == 0 { (Some(Some(l)), None) } else { (None, Some(Some(l))) };
        super::__call_query__categories__exclude_categories__exclude_characters__include_characters__max_codepoint__min_codepoint__version(
            inc, exc, None, None, None, None, None).err().map(|x| x.kind)
    };
    match r {
        Some(k) => v::prove(k == 1, if p & 8 != 0 { "P24 an unknown designation raises ValueError" } else { "P22 invalid arguments raise ValueError" }),
        None => v::unreachable(if p & 8 != 0 { "P24 an unknown designation raises an exception" } else { "P22 invalid arguments raise an exception" }),
    }
}

/// query(...) with a written-out list. param bit 0: exclude_categories; rest: the list
pub fn h_py_short() {
    let (f, m) = (v::param() & 1, v::param() >> 1);
    let k = v::obs_category() as usize;
    let (me, other) = (String::from(NAMES[k]), String::from(NAMES[(k + 7) % 30]));
    let l = match m {
        0 => vec![me],
        1 => vec![other, me],
        2 => vec![me.clone(), other, me],
        3 => vec![other.clone(), other],
        _ => Vec::new(),
    };
    let (inc, exc) = if f == 0 { (Some(Some(l)), None) } else { (None, Some(Some(l))) };
    match super::__call_query__categories__exclude_categories__exclude_characters__include_characters__max_codepoint__min_codepoint__version(
        inc, exc, None, None, None, None, None) {
        Ok(t) => v::prove(v::has(pairs(t.0)) == ((m < 3) == (f == 0)), "P22 the arguments of query mean what they are named after"),
        Err(_) => v::unreachable("P22 valid arguments are accepted"),
    }
}

fn version_arg(w: UnicodeVersion, given: bool) -> Option<Option<PyUnicodeVersion>> {
    if given { Some(Some(PYVERS[w as usize])) } else { None }
}

/// as_general_categories of an arbitrary list. param 0: version given, 1: not
pub fn h_py_general() {
    let mut e = Entries { name: "", class: "", classes: true, wanted: false, bad: false };
    let given = v::param() == 0;
    let r = super::__call_as_general_categories__categories__version(Some(v::lazy(&mut e)), version_arg(v::the_version(), given));
    match r {
        Ok(t) => {
            v::prove(!e.bad, "P24 an unknown designation raises an exception");
            v::prove(t.0.kind == 2, "P24 the result is a tuple of texts");
        }
        Err(x) => {
            v::prove(e.bad, "P24 known designations are accepted");
            v::prove(x.kind == 1, "P24 an unknown designation raises ValueError");
        }
    }
}

/// as_general_categories of each class, each name, all names, an empty list and a list with repetitions:
/// the names of the core function's result, in its order.
pub fn h_py_general_names() {
    let w = v::the_version();
    let given = v::param() == 0;
    let w0 = if given { w } else { VERS[10] };
    let mut j = 0;
    while j < 41 {
        let mut list = Vec::new();
        let mut same: Vec<&str> = Vec::new();
        let mut add = |s: &'static str| { list.push(String::from(s)); same.push(s) };
        if j < 7 { add(CLASSES[j]) } else if j < 37 { add(NAMES[j - 7]) } else if j == 37 {
            let mut i = 0;
            while i < 30 { add(NAMES[i]); i += 1 }
        } else if j == 38 { add("Lu"); add("N"); add("Lu"); add("Nd") } else if j == 39 { add("Z"); add("C"); add("Sm") }
        let want = unicode_intervals_core::as_general_categories(same, w0);
        let r = super::__call_as_general_categories__categories__version(Some(list), version_arg(w, given));
        match (r, want) {
            (Ok(t), Ok(o)) => {
                v::prove(t.0.kind == 2 && t.0.names.len() == o.len(), "P24 one name per category of the core result");
                let mut i = 0;
                while i < o.len() {
                    v::prove(t.0.names[i].as_str() == o[i].as_str(), "P24 the names of the core result, in its order");
                    i += 1;
                }
            }
            _ => v::unreachable("P24 known designations are accepted"),
        }
        j += 1;
    }
}

/// The contents of the module.
pub fn h_py_module() {
    use pyo3::types::PyModule;
    let m = PyModule::stub();
    match super::unicode_intervals(pyo3::stub_py(), &m) {
        Ok(()) => {}
        Err(_) => v::unreachable("P25 the module loads"),
    }
    v::prove(v::exports() == 6, "P25 the module exports what its interface declares and nothing else");
    let fns = ["query", "categories", "as_general_categories"];
    let mut i = 0;
    while i < 3 {
        match v::exported::<u8>(fns[i]) {
            Some(x) => v::prove(*x == 1, "P25 the functions of the interface are exported"),
            None => v::unreachable("P25 the functions of the interface are exported"),
        }
        i += 1;
    }
    match v::exported::<u8>("UnicodeVersion") {
        Some(x) => v::prove(*x == 0, "P25 the class UnicodeVersion is exported"),
        None => v::unreachable("P25 the class UnicodeVersion is exported"),
    }
    match v::exported::<&str>("__version__") {
        Some(x) => v::prove(*x == env!("CARGO_PKG_VERSION"), "P25 __version__ is the version of the package"),
        None => v::unreachable("P25 __version__ is exported"),
    }
    match v::exported::<Bound<'static, PyTuple>>("available_versions") {
        Some(t) => {
            v::prove(t.0.kind == 3, "P25 available_versions is a tuple of versions");
            let l = unsafe { &*(t.0.raw as *const Vec<PyUnicodeVersion>) };
            v::prove(l.len() == 11, "P25 available_versions lists every bundled version once");
            let mut i = 0;
            while i < 11 {
                v::prove(l[i] == PYVERS[i], "P25 available_versions is in order, oldest first");
                i += 1;
            }
        }
        None => v::unreachable("P25 available_versions is exported"),
    }
    v::prove(super::__pos_query == "", "P25 the arguments of query are keyword-only");
    v::prove(super::__pos_categories == "version", "P25 the argument of categories may be positional");
    v::prove(super::__pos_as_general_categories == "categories,version", "P25 the arguments of as_general_categories may be positional");
}

/// The text of a version object and the messages of exceptions.
pub fn h_py_texts() {
    let i = v::param() as usize;
    if i < 11 {
        v::prove(PYVERS[i].__repr__() == format!("UnicodeVersion(\"{}\")", VERSIONS[i]), "P21 repr of a version");
    } else {
        let s = v::any_str(false);
        let mut j = 0;
        while j < VERSIONS.len() {
            v::assume(s != VERSIONS[j]);
            j += 1;
        }
        match PyUnicodeVersion::__py_new(s) {
            Ok(_) => v::unreachable("P21 other texts are rejected"),
            Err(e) => v::prove(e.msg == format!("Unknown Unicode version: {s}"), "P21 the message names the unknown version"),
        }
    }
}
