#![feature(try_trait_v2)]
#![allow(unused, clippy::all)]
pub mod v;
pub mod m;
use unicode_intervals::*;

/// an arbitrary category set that contains the observed category iff `has`
pub fn any_set(has: bool) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    while v::nondet_bool() {
        s.add(v::any_category());
    }
    v::assume(s.contains(v::obs_category()) == has);
    s
}

fn pick(bit: u32) -> bool {
    v::param() >> bit & 1 == 1
}

/// Membership and canonical form of the result of a query, for an arbitrary query.
/// param: bit 0 include given, 1 include has K, 2 exclude has K, 3/4 include/exclude characters
/// have C, 5.. range: 0 max < 256, 1 full, 2 other.
pub fn h_query() {
    let ver = v::the_version();
    let inc_some = pick(0);
    let inc_has = pick(1);
    let exc_has = pick(2);
    let ic_has = pick(3);
    let ec_has = pick(4);
    let inc = if inc_some { Some(any_set(inc_has)) } else { None };
    let exc = any_set(exc_has);
    let ic = v::any_str(ic_has);
    let ec = v::any_str(ec_has);
    let (lo, hi) = (v::nondet_u32(), v::nondet_u32());
    let c = v::obs_c();
    v::assume(lo <= hi && hi <= 0x10FFFF);
    match v::param() >> 5 {
        w @ 0..=4 => {
            v::assume(hi < 256);
            c_in_word(w);
        }
        5 => v::assume(lo == 0 && hi == 0x10FFFF),
        _ => v::assume(hi >= 256 && (lo > 0 || hi < 0x10FFFF)),
    }
    let in_range = lo <= c && c <= hi;
    let allowed = if inc_some { inc_has && !exc_has } else { !exc_has };
    let want = ((in_range && allowed) || ic_has) && !ec_has;
    let r = ver.query().include_categories(inc).exclude_categories(exc).include_characters(ic).exclude_characters(ec).min_codepoint(lo).max_codepoint(hi).intervals();
    match r {
        Ok(r) => {
            v::prove(v::has(&r) == want, "P01 the result holds exactly the code points the query asks for");
            v::prove(v::canonical(&r), "P02 the result is sorted, disjoint and non-adjacent");
        }
        Err(_) => v::unreachable("P01 a query with an ordered range is answered"),
    }
}

// ------------------------------------------------------------------ category sets
const CATS: [UnicodeCategory; 30] = {
    use UnicodeCategory::*;
    [Pe, Pc, Cc, Sc, Pd, Nd, Me, Pf, Cf, Pi, Nl, Zl, Ll, Sm, Lm, Sk, Mn, Ps, Lo, No, Po, So, Zp, Co, Zs, Mc, Cs, Lt, Cn, Lu]
};

/// Set algebra seen through the membership of an arbitrary category K.
pub fn h_set_ops() {
    let k = v::obs_category();
    let x = v::any_category();
    let (a, b) = (v::fork(), v::fork());
    let s = any_set(a);
    let t = any_set(b);
    v::prove(s.contains(k) == a, "P12 contains");
    v::prove(!UnicodeCategorySet::new().contains(k), "P12 new() is empty");
    v::prove(!UnicodeCategorySet::default().contains(k), "P12 default() is empty");
    v::prove(UnicodeCategorySet::all().contains(k), "P12 all() contains every category");
    v::prove((s | t).contains(k) == (a || b), "P12 set | set");
    let mut m = s;
    m |= t;
    v::prove(m.contains(k) == (a || b), "P12 set |= set");
    v::prove((s | x).contains(k) == (a || x == k), "P12 set | category");
    v::prove((x | s).contains(k) == (a || x == k), "P12 category | set");
    let mut m = s;
    m |= x;
    v::prove(m.contains(k) == (a || x == k), "P12 set |= category");
    let y = v::any_category();
    v::prove((x | y).contains(k) == (x == k || y == k), "P12 category | category");
    let mut m = s;
    m.add(x);
    v::prove(m.contains(k) == (a || x == k), "P12 add");
    let mut m = s;
    m.remove(x);
    v::prove(m.contains(k) == (a && x != k), "P12 remove");
    let f: UnicodeCategorySet = x.into();
    v::prove(f.contains(k) == (x == k), "P12 set from category");
    let f: Option<UnicodeCategorySet> = x.into();
    match f {
        Some(f) => v::prove(f.contains(k) == (x == k), "P12 optional set from category"),
        None => v::unreachable("P12 optional set from category"),
    }
}

pub fn h_set_len() {
    let k = v::obs_category();
    let a = v::fork();
    let s = any_set(a);
    v::prove(UnicodeCategorySet::new().len() == 0, "P13 new() has length 0");
    v::prove(UnicodeCategorySet::all().len() == 30, "P13 all() has length 30");
    v::prove(UnicodeCategorySet::new().is_empty(), "P13 new() is empty");
    v::prove(!UnicodeCategorySet::all().is_empty(), "P13 all() is not empty");
    v::prove(s.len() <= 30, "P13 length at most 30");
    v::prove((s.len() == 0) == s.is_empty(), "P13 is_empty agrees with len");
    if a {
        v::prove(!s.is_empty(), "P13 is_empty of a non-empty set");
        v::prove(s.len() >= 1, "P13 length of a non-empty set");
    }
    let mut m = s;
    m.add(k);
    v::prove(m.len() == s.len() + (if a { 0 } else { 1 }), "P13 length after add");
    let mut m = s;
    m.remove(k);
    v::prove(m.len() + (if a { 1 } else { 0 }) == s.len(), "P13 length after remove");
}

/// Iteration yields every member exactly once.
pub fn h_set_iter() {
    let k = v::obs_category();
    let a = v::fork();
    let s = any_set(a);
    let mut seen = 0u32;
    let mut last: Option<u32> = None;
    for c in s.iter() {
        if c == k {
            seen += 1;
        }
        let i = c as u32;
        if let Some(l) = last {
            v::prove(l < i, "P13 iteration is in increasing order");
        }
        last = Some(i);
    }
    v::prove(seen == if a { 1 } else { 0 }, "P13 iteration yields exactly the members");
}

pub fn h_set_iter_len() {
    let k = v::obs_category();
    let a = v::fork();
    let s = any_set(a);
    let mut it = s.iter();
    let n = s.len();
    v::prove(it.len() == n, "P13 iterator len");
    v::prove(it.size_hint() == (n, Some(n)), "P13 iterator size_hint");
    let first = it.next();
    match first {
        Some(_) => {
            v::prove(it.len() + 1 == n, "P13 iterator len after next");
            v::prove(it.size_hint() == (n - 1, Some(n - 1)), "P13 iterator size_hint after next");
        }
        None => v::prove(n == 0, "P13 iterator ends early"),
    }
}

// ------------------------------------------------------------------ names
const VERSIONS: [&str; 11] = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"];
const VERS: [UnicodeVersion; 11] = {
    use UnicodeVersion::*;
    [V9_0_0, V10_0_0, V11_0_0, V12_0_0, V12_1_0, V13_0_0, V14_0_0, V15_0_0, V15_1_0, V16_0_0, V17_0_0]
};

pub fn h_version_names() {
    let i = v::param() as usize;
    let w = VERS[i];
    v::prove(w.as_str() == VERSIONS[i], "P09 as_str");
    v::prove(UnicodeVersion::ALL[i] == w, "P09 ALL is in release order");
    v::prove(UnicodeVersion::ALL.len() == 11, "P09 ALL is complete");
    v::prove(UnicodeVersion::latest() == UnicodeVersion::V17_0_0, "P09 latest");
    match VERSIONS[i].parse::<UnicodeVersion>() {
        Ok(x) => v::prove(x == w, "P09 parse inverts as_str"),
        Err(_) => v::unreachable("P09 parse accepts every version"),
    }
}

pub fn h_version_parse() {
    let i = v::param() as usize;
    let s = v::any_str(false);
    let mut known = false;
    let mut j = 0;
    while j < VERSIONS.len() {
        if s == VERSIONS[j] {
            v::assume(i == j);
            known = true;
        }
        j += 1;
    }
    v::assume(known == (i < VERSIONS.len()));
    match s.parse::<UnicodeVersion>() {
        Ok(x) => {
            v::prove(known, "P09 parse rejects other text");
            v::prove(x.as_str() == s, "P09 parse accepts a name as itself");
        }
        Err(Error::InvalidVersion(b)) => {
            v::prove(!known, "P09 parse accepts every name");
            v::prove(&*b == s, "P09 the error carries the rejected text");
        }
        Err(_) => v::unreachable("P09 parse error kind"),
    }
}

const NAMES: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps", "Lo", "No", "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];
const LONG: [UnicodeCategory; 30] = [
    UnicodeCategory::CLOSE_PUNCTUATION, UnicodeCategory::CONNECTOR_PUNCTUATION, UnicodeCategory::CONTROL, UnicodeCategory::CURRENCY_SYMBOL,
    UnicodeCategory::DASH_PUNCTUATION, UnicodeCategory::DECIMAL_NUMBER, UnicodeCategory::ENCLOSING_MARK, UnicodeCategory::FINAL_PUNCTUATION,
    UnicodeCategory::FORMAT, UnicodeCategory::INITIAL_PUNCTUATION, UnicodeCategory::LETTER_NUMBER, UnicodeCategory::LINE_SEPARATOR,
    UnicodeCategory::LOWERCASE_LETTER, UnicodeCategory::MATH_SYMBOL, UnicodeCategory::MODIFIER_LETTER, UnicodeCategory::MODIFIER_SYMBOL,
    UnicodeCategory::NONSPACING_MARK, UnicodeCategory::OPEN_PUNCTUATION, UnicodeCategory::OTHER_LETTER, UnicodeCategory::OTHER_NUMBER,
    UnicodeCategory::OTHER_PUNCTUATION, UnicodeCategory::OTHER_SYMBOL, UnicodeCategory::PARAGRAPH_SEPARATOR, UnicodeCategory::PRIVATE_USE,
    UnicodeCategory::SPACE_SEPARATOR, UnicodeCategory::SPACING_MARK, UnicodeCategory::SURROGATE, UnicodeCategory::TITLECASE_LETTER,
    UnicodeCategory::UNASSIGNED, UnicodeCategory::UPPERCASE_LETTER,
];

pub fn h_category_names() {
    let i = v::param() as usize;
    let k = CATS[i];
    v::prove(k.as_str() == NAMES[i], "P10 as_str");
    v::prove(LONG[i] == k, "P10 long names");
    match NAMES[i].parse::<UnicodeCategory>() {
        Ok(x) => v::prove(x == k, "P10 parse inverts as_str"),
        Err(_) => v::unreachable("P10 parse accepts every category"),
    }
}

pub fn h_category_parse() {
    let i = v::param() as usize;
    let s = v::any_str(false);
    let mut known = false;
    let mut j = 0;
    while j < NAMES.len() {
        if s == NAMES[j] {
            v::assume(i == j);
            known = true;
        }
        j += 1;
    }
    v::assume(known == (i < NAMES.len()));
    match s.parse::<UnicodeCategory>() {
        Ok(x) => {
            v::prove(known, "P10 parse rejects other text");
            v::prove(x.as_str() == s, "P10 parse accepts a name as itself");
        }
        Err(Error::InvalidCategory(b)) => {
            v::prove(!known, "P10 parse accepts every name");
            v::prove(&*b == s, "P10 the error carries the rejected text");
        }
        Err(_) => v::unreachable("P10 parse error kind"),
    }
}

/// What Display writes for versions, categories and errors. param: which
pub fn h_text() {
    let i = v::param() as usize;
    if i < 11 {
        v::prove(VERS[i].to_string() == VERSIONS[i], "P20 a version is written as its number");
    } else if i < 41 {
        v::prove(CATS[i - 11].to_string() == NAMES[i - 11], "P20 a category is written as its abbreviation");
    } else {
        let (a, b) = (v::nondet_u32(), v::nondet_u32());
        let s = v::any_str(false);
        let (e, want) = match i {
            41 => (Error::InvalidCategory(s.into()), format!("'{}' is not a valid Unicode category", s)),
            42 => (Error::InvalidVersion(s.into()), format!("'{}' is not a valid Unicode version", s)),
            43 => (Error::InvalidCodepoints(a, b), format!("Minimum codepoint should be less or equal than maximum codepoint. Got {} < {}", a, b)),
            _ => (Error::CodepointNotInRange(a, b), format!("Codepoints should be in [0; 1114111] range. Got: [{}; {}]", a, b)),
        };
        v::prove(e.to_string() == want, "P20 an error names what was wrong");
    }
}

fn set_text(pick: impl Fn(usize) -> bool) {
    let mut s = UnicodeCategorySet::new();
    let mut want = String::new();
    let mut i = 0;
    while i < 30 {
        if pick(i) {
            s |= CATS[i];
            if want.len() > 0 {
                want.push_str(", ");
            }
            want.push_str(NAMES[i]);
        }
        i += 1;
    }
    v::prove(s.to_string() == want, "P20 a set is written as the abbreviations of its members, in order, separated by commas");
}

/// What Display writes for sets: none, one, two, all but one, the first few and the last few members.
pub fn h_set_text() {
    let i = v::param() as usize;
    let mut j = i;
    while j < 30 {
        set_text(|x| x == i || x == j);
        j += 1;
    }
    set_text(|x| x != i);
    set_text(|x| x < i);
    set_text(|x| x >= i);
}

/// Display implementations the engine may need
pub fn h_display(f: &mut std::fmt::Formatter<'_>, a: &UnicodeCategory, b: &UnicodeVersion, e: &Error, s: &UnicodeCategorySet) {
    use std::fmt::Display;
    let _ = a.fmt(f);
    let _ = b.fmt(f);
    let _ = e.fmt(f);
    let _ = s.fmt(f);
}

/// Major class constants: K is a member iff its abbreviation starts with the class letter.
pub fn h_major() {
    let i = v::param() as usize;
    let k = CATS[i];
    const LETTERS: [u8; 30] = {
        let mut r = [0; 30];
        let mut i = 0;
        while i < 30 {
            r[i] = NAMES[i].as_bytes()[0];
            i += 1;
        }
        r
    };
    let l = LETTERS[i];
    v::prove(UnicodeCategory::L.contains(k) == (l == b'L'), "P14 class L");
    v::prove(UnicodeCategory::M.contains(k) == (l == b'M'), "P14 class M");
    v::prove(UnicodeCategory::N.contains(k) == (l == b'N'), "P14 class N");
    v::prove(UnicodeCategory::P.contains(k) == (l == b'P'), "P14 class P");
    v::prove(UnicodeCategory::S.contains(k) == (l == b'S'), "P14 class S");
    v::prove(UnicodeCategory::Z.contains(k) == (l == b'Z'), "P14 class Z");
    v::prove(UnicodeCategory::C.contains(k) == (l == b'C'), "P14 class C");
    let n = UnicodeCategory::L.len() + UnicodeCategory::M.len() + UnicodeCategory::N.len() + UnicodeCategory::P.len()
        + UnicodeCategory::S.len() + UnicodeCategory::Z.len() + UnicodeCategory::C.len();
    v::prove(n == 30, "P14 the classes have no other members");
}

// ------------------------------------------------------------------ validation and builder
pub fn h_validate() {
    let w = VERS[v::param() as usize];
    let (lo, hi) = (v::nondet_u32(), v::nondet_u32());
    let out = lo > 0x10FFFF || hi > 0x10FFFF;
    v::assume(out || lo > hi);
    let q = w.query().min_codepoint(lo).max_codepoint(hi);
    match q.intervals() {
        Ok(_) => v::unreachable("P03 an invalid range is rejected"),
        Err(Error::CodepointNotInRange(a, b)) => {
            v::prove(out, "P03 CodepointNotInRange only beyond U+10FFFF");
            v::prove(a == lo && b == hi, "P03 the error carries the bounds");
        }
        Err(Error::InvalidCodepoints(a, b)) => {
            v::prove(!out && lo > hi, "P03 InvalidCodepoints only for min > max");
            v::prove(a == lo && b == hi, "P03 the error carries the bounds");
        }
        Err(_) => v::unreachable("P03 error kind"),
    }
    match q.interval_set() {
        Ok(_) => v::unreachable("P03 an invalid range is rejected by interval_set"),
        Err(Error::CodepointNotInRange(a, b)) => v::prove(out && a == lo && b == hi, "P03 interval_set CodepointNotInRange"),
        Err(Error::InvalidCodepoints(a, b)) => v::prove(!out && lo > hi && a == lo && b == hi, "P03 interval_set InvalidCodepoints"),
        Err(_) => v::unreachable("P03 interval_set error kind"),
    }
}

/// The builder after any history of setter calls. param bits 0-2: the setting looked at, bit 3: through
/// interval_set, bit 4: the free function query, bit 5: the setting is taken back by None / set by a category.
pub fn h_builder() {
    let (f, set, free, alt) = (v::param() & 7, pick(3), pick(4), pick(5));
    let (s1, s0) = (any_set(true), any_set(false));
    let (t1, t0) = (v::any_str(true), v::any_str(false));
    let k = v::obs_category();
    let c = v::obs_c();
    let mut q = if free { query() } else { v::the_version().query() };
    // whether the setting looked at, last given, admits C
    let mut want = f == 0;
    let (mut lo, mut hi) = (0, 0x10FFFF);
    while v::nondet_bool() {
        match v::nondet_u32() {
            0 => {
                let b = f == 0 && v::fork();
                if f == 0 { want = b }
                q = if !alt { q.include_categories(if b { s1 } else { s0 }) } else if b { q.include_categories(k) } else { q.include_categories(Some(s0)) };
            }
            1 => {
                let b = f == 1 && v::fork();
                if f == 1 { want = b }
                q = if !alt { q.exclude_categories(if b { s1 } else { s0 }) } else if b { q.exclude_categories(k) } else { q.exclude_categories(Some(s0)) };
            }
            2 => {
                let b = f == 2 && v::fork();
                if f == 2 { want = b }
                q = q.include_characters(if b { t1 } else { t0 });
            }
            3 => {
                let b = f == 3 && v::fork();
                if f == 3 { want = b }
                q = q.exclude_characters(if b { t1 } else { t0 });
            }
            4 => {
                lo = v::nondet_u32();
                q = q.min_codepoint(lo);
            }
            5 => {
                hi = v::nondet_u32();
                q = q.max_codepoint(hi);
            }
            6 if f == 0 && alt => {
                want = true;
                q = q.include_categories(None);
            }
            7 if f == 1 && alt => {
                want = false;
                q = q.exclude_categories(None);
            }
            _ => {}
        }
    }
    // the other settings so that the one looked at decides
    if f != 0 { q = q.include_categories(if f == 2 { Some(s0) } else { None }) }
    if f != 1 { q = q.exclude_categories(None) }
    if f != 2 { q = q.include_characters(t0) }
    if f != 3 { q = q.exclude_characters(t0) }
    if f != 4 { q = q.min_codepoint(0) }
    if f != 5 { q = q.max_codepoint(0x10FFFF) }
    let want = match f { 1 | 3 => !want, 4 => lo <= c, 5 => c <= hi, _ => want };
    let valid = match f { 4 => lo <= 0x10FFFF, 5 => hi <= 0x10FFFF, _ => true };
    let got = if set {
        match q.interval_set() {
            Ok(s) => s.contains(c),
            Err(_) => { v::prove(!valid, "P19 a valid query is answered"); return }
        }
    } else {
        match q.intervals() {
            Ok(r) => v::has(&r),
            Err(_) => { v::prove(!valid, "P19 a valid query is answered"); return }
        }
    };
    v::prove(valid, "P19 an invalid query is not answered");
    v::prove(got == want, "P19 a setting keeps the value it was given last, whatever else is set");
}

/// What P01 establishes for query::query, used in its place.
pub fn h_c_query(version: UnicodeVersion, inc: Option<UnicodeCategorySet>, exc: UnicodeCategorySet, ic: &str, ec: &str, lo: u32, hi: u32) -> Vec<Interval> {
    v::prove(version as u32 == v::the_version() as u32, "P19 the query is of the version it was made for");
    let (c, k) = (v::obs_c(), v::obs_category());
    let allowed = match inc { Some(s) => s.contains(k), None => true } && !exc.contains(k);
    if (lo <= c && c <= hi && allowed || v::str_has(ic)) && !v::str_has(ec) { v::any_canonical(true) } else { v::any_canonical(false) }
}

/// Table of each version seen through (K, C): row K contains C iff the reference category of C is K.
pub fn h_table() {
    let w = v::the_version();
    let k = v::obs_category();
    v::prove(v::has(w.intervals_for(k)), "P11 intervals_for contains every code point of the category");
    v::prove(v::canonical(w.intervals_for(k)), "P11 intervals_for is sorted and disjoint");
    let x = v::any_category();
    if x != k {
        v::prove(!v::has(w.intervals_for(x)), "P11 intervals_for has no code point of another category");
    }
    v::prove(w.table().len() == 30, "P11 table has one row per category");
}

/// position of the abbreviation in alphabetical order
fn rank(c: UnicodeCategory) -> usize {
    let mut r = 0;
    let mut i = 0;
    while i < 30 {
        if CATS[i] == c {
            r = RANK[i];
        }
        i += 1;
    }
    r
}

const RANK: [usize; 30] = {
    let mut r = [0; 30];
    let mut i = 0;
    while i < 30 {
        let mut j = 0;
        while j < 30 {
            let (a, b) = (NAMES[i].as_bytes(), NAMES[j].as_bytes());
            if b[0] < a[0] || b[0] == a[0] && b[1] < a[1] {
                r[i] += 1;
            }
            j += 1;
        }
        i += 1;
    }
    r
};

pub fn h_normalized() {
    let w = v::the_version();
    let o = w.normalized_categories();
    let mut t = 0;
    while t < 30 {
        let mut i = 0;
        let mut n = 0;
        while i < 30 {
            if o[i] == CATS[t] {
                n += 1;
            }
            i += 1;
        }
        v::prove(n == 1, "P15 every category occurs exactly once");
        t += 1;
    }
    v::prove(o[28] == UnicodeCategory::Cc && o[29] == UnicodeCategory::Cs, "P15 control and surrogate come last");
    let mut i = 1;
    while i < 28 {
        let (a, b) = (w.intervals_for(o[i - 1]).len(), w.intervals_for(o[i]).len());
        v::prove(a <= b, "P15 ordered by number of intervals");
        if a == b {
            let (p, q) = (rank(o[i - 1]), rank(o[i]));
            v::prove(p < q, "P15 ties ordered by abbreviation");
        }
        i += 1;
    }
}

// ------------------------------------------------------------------ as_general_categories
const CLASSES: [&str; 7] = ["C", "L", "M", "N", "P", "S", "Z"];

/// Arbitrary sequence of entries; remembers whether K is wanted and whether an entry was invalid.
struct Entries<'a> {
    name: &'static str,
    class: &'static str,
    wanted: &'a mut bool,
    bad: &'a mut bool,
}

impl<'a> Iterator for Entries<'a> {
    type Item = &'static str;
    fn next(&mut self) -> Option<&'static str> {
        if v::nondet_bool() {
            return None;
        }
        if v::fork() {
            // an unknown designation
            let s = v::any_str(false);
            let mut j = 0;
            while j < 30 {
                v::assume(s != NAMES[j]);
                j += 1;
            }
            let mut j = 0;
            while j < 7 {
                v::assume(s != CLASSES[j]);
                j += 1;
            }
            *self.bad = true;
            return Some(s);
        }
        let s = if v::fork() {
            let j = v::nondet_usize();
            v::assume(j < 30);
            NAMES[j]
        } else {
            let j = v::nondet_usize();
            v::assume(j < 7);
            CLASSES[j]
        };
        if s == self.name || s == self.class {
            *self.wanted = true;
        }
        Some(s)
    }
}

pub fn h_general() {
    let w = v::the_version();
    let i = v::param() as usize;
    let k = CATS[i];
    let class = class_of(i);
    let (mut wanted, mut bad) = (false, false);
    let r = as_general_categories(Entries { name: NAMES[i], class, wanted: &mut wanted, bad: &mut bad }, w);
    match r {
        Ok(r) => {
            v::prove(!bad, "P14 an unknown designation is rejected");
            v::prove(v::has_cat(&r) == wanted, "P14 the result holds exactly the designated categories");
        }
        Err(Error::InvalidCategory(_)) => v::prove(bad, "P14 known designations are accepted"),
        Err(_) => v::unreachable("P14 error kind"),
    }
}

fn class_of(i: usize) -> &'static str {
    let mut j = 0;
    while j < 7 {
        if CLASS_ROW[j][i] {
            return CLASSES[j];
        }
        j += 1;
    }
    ""
}

const CLASS_ROW: [[bool; 30]; 7] = {
    let mut r = [[false; 30]; 7];
    let mut j = 0;
    while j < 7 {
        let mut i = 0;
        while i < 30 {
            r[j][i] = NAMES[i].as_bytes()[0] == CLASSES[j].as_bytes()[0];
            i += 1;
        }
        j += 1;
    }
    r
};

/// The result is in the order of normalized_categories (every class, and all categories at once).
pub fn h_general_order() {
    let w = v::the_version();
    let o = w.normalized_categories();
    let mut j = 0;
    while j < 8 {
        let r = if j < 7 { as_general_categories([CLASSES[j]], w) } else { as_general_categories(NAMES, w) };
        match r {
            Ok(r) => {
                let mut i = 0;
                let mut n = 0;
                while i < 30 {
                    let want = j == 7 || rowhas(j, o[i]);
                    if want {
                        v::prove(n < r.len() && r[n] == o[i], "P14 the result follows the order of normalized_categories");
                        n += 1;
                    }
                    i += 1;
                }
                v::prove(n == r.len(), "P14 nothing else in the result");
            }
            Err(_) => v::unreachable("P14 a class name is accepted"),
        }
        j += 1;
    }
}

fn rowhas(j: usize, c: UnicodeCategory) -> bool {
    let mut i = 0;
    while i < 30 {
        if CATS[i] == c {
            return CLASS_ROW[j][i];
        }
        i += 1;
    }
    false
}

/// One row of one version's table (param = version * 30 + category); read back from constant memory.
pub fn h_row() -> &'static [Interval] {
    let p = v::param() as usize;
    VERS[p / 30].intervals_for(CATS[p % 30])
}

// ------------------------------------------------------------------ interval algebra
/// Any list of intervals, in any order, overlapping or not.
pub fn h_merge() {
    let has = pick(0);
    let mut x = v::any_intervals(has);
    let e = x.is_empty();
    v::t_merge(&mut x);
    v::prove(v::has(&x) == has, "C1 merge keeps exactly the members");
    v::prove(v::canonical(&x), "C2 merge yields sorted, disjoint, non-adjacent intervals");
    v::prove(e == x.is_empty(), "C1 merge of an empty list is empty");
}

pub fn h_subtract() {
    let (a, b) = (pick(0), pick(1));
    let x = v::any_canonical(a);
    let y = v::any_canonical(b);
    let r = v::t_subtract(x, &y);
    v::prove(v::has(&r) == (a && !b), "C1 subtract is the set difference");
    v::prove(v::canonical(&r), "C2 subtract yields sorted, disjoint, non-adjacent intervals");
}

pub fn h_from_str() {
    let a = pick(0);
    let s = v::any_str(a);
    let r = v::t_from_str(s);
    v::prove(v::has(&r) == a, "C1 from_str holds exactly the characters");
    v::prove(v::canonical(&r), "C2 from_str yields sorted, disjoint, non-adjacent intervals");
    v::prove(s.is_empty() == r.is_empty(), "C1 from_str of an empty text is empty");
}

/// The contracts h_merge, h_subtract and h_from_str establish, used in place of the functions.
pub fn h_c_merge(x: &mut Vec<Interval>) {
    v::prove(v::bounded(x, 0x10FFFF), "CP intervals are within the code space");
    let e = x.is_empty();
    if v::has(x) {
        *x = v::any_canonical(true);
    } else {
        *x = v::any_canonical(false);
        v::assume(x.is_empty() == e);
    }
}

pub fn h_c_subtract(x: Vec<Interval>, y: &[Interval]) -> Vec<Interval> {
    v::prove(v::canonical(&x), "CP intervals are sorted and merged before exclusion");
    v::prove(v::canonical(y), "CP excluded intervals are sorted and merged");
    if v::has(y) {
        return v::any_canonical(false);
    }
    if v::has(&x) { v::any_canonical(true) } else { v::any_canonical(false) }
}

pub fn h_c_from_str(s: &str) -> Vec<Interval> {
    if s.is_empty() {
        return vec![];
    }
    let r = if v::str_has(s) { v::any_canonical(true) } else { v::any_canonical(false) };
    v::assume(!r.is_empty());
    r
}

/// Appends the part of a sorted table inside lo..=hi.
pub fn h_extend_clamped() {
    let (a, b, empty) = (pick(0), pick(1), pick(2));
    let mut out = if empty { vec![] } else { v::any_intervals(a) };
    let had = v::has(&out);
    let table = v::any_canonical(b);
    let (lo, hi, c) = (v::nondet_u32(), v::nondet_u32(), v::obs_c());
    let inside = match v::param() >> 3 {
        0 => {
            v::assume(lo <= c && c <= hi);
            true
        }
        1 => {
            v::assume(c < lo);
            false
        }
        _ => {
            v::assume(c > hi);
            false
        }
    };
    v::t_extend_clamped(&mut out, &table, lo, hi);
    v::prove(v::has(&out) == (had || b && inside), "C1 a clamped row adds exactly the part inside the range");
    v::prove(v::bounded(&out, 0x10FFFF), "C1 clamped rows stay within the code space");
    if empty {
        v::prove(v::canonical(&out), "C2 one clamped row stays sorted, disjoint and non-adjacent");
    }
}

pub fn h_c_extend_clamped(out: &mut Vec<Interval>, table: &[Interval], lo: u32, hi: u32) {
    v::prove(v::canonical(table), "CP a clamped row is sorted, disjoint and non-adjacent");
    v::prove(v::bounded(table, 0x10FFFF), "CP a clamped row is within the code space");
    v::prove(v::bounded(out, 0x10FFFF), "CP collected intervals are within the code space");
    let c = v::obs_c();
    let add = if v::has(table) { lo <= c && c <= hi } else { false };
    if out.is_empty() {
        *out = if add { v::any_canonical(true) } else { v::any_canonical(false) };
    } else {
        let h = v::has(out) || add;
        *out = if h { v::any_intervals(true) } else { v::any_intervals(false) };
    }
}

/// Where C is: param selects one of the four words of a 256-bit mask, or beyond.
fn c_in_word(w: u32) {
    let c = v::obs_c();
    if w < 4 {
        v::assume(64 * w <= c && c <= 64 * w + 63);
    } else {
        v::assume(c >= 256);
    }
}

pub fn h_range_mask() {
    c_in_word(v::param());
    let (lo, hi, c) = (v::nondet_u32(), v::nondet_u32(), v::obs_c());
    v::assume(lo <= hi && hi < 256);
    let m = v::t_range_mask(lo, hi);
    v::prove(v::mask_has(&m) == (lo <= c && c <= hi), "C1 the range mask holds exactly the range");
}

pub fn h_extract_intervals() {
    c_in_word(v::param() >> 1);
    let has = pick(0);
    let m = v::any_mask(has);
    let r = v::t_extract_intervals(&m);
    v::prove(v::has(&r) == has, "C1 the mask's intervals hold exactly its bits");
    v::prove(v::canonical(&r), "C2 the mask's intervals are sorted, disjoint and non-adjacent");
}

pub fn h_c_range_mask(lo: u32, hi: u32) -> [u64; 4] {
    v::prove(lo <= hi && hi < 256, "CP the mask's range is ordered and below 256");
    let c = v::obs_c();
    if lo <= c && c <= hi { v::any_mask(true) } else { v::any_mask(false) }
}

pub fn h_c_extract_intervals(m: &[u64; 4]) -> Vec<Interval> {
    if v::mask_has(m) { v::any_canonical(true) } else { v::any_canonical(false) }
}

// ------------------------------------------------------------------ interval sets
/// Ranks around C in the set of an arbitrary canonical list (param: previous interval, interval of C, next interval exist).
pub fn h_set_rank() {
    let (prev, has, next) = (pick(0), pick(1), pick(2));
    let x = v::any_around(prev, has, next);
    let (p, c) = (v::around(), v::obs_c());
    let j = if prev { p + 1 } else { p };
    let before = if has && c > x[j].0 { Some(c - 1) } else if prev { Some(x[p].1) } else { None };
    let after = if has && c < x[j].1 { Some(c + 1) } else if next { Some(x[if has { j + 1 } else { j }].0) } else { None };
    let set = v::t_set_new(x);
    let len = set.len();
    v::prove(set.is_empty() == (len == 0), "P05 is_empty iff no member");
    v::prove(set.contains(c) == has, "P05 contains iff a member");
    let i = set.index_of(c);
    v::prove(i.is_some() == has, "P05 index_of is Some iff a member");
    let up = set.index_above(c);
    if let Some(i) = i {
        v::prove((i as usize) < len, "P06 an index is below len");
        v::prove(set.codepoint_at(i) == Some(c), "P06 codepoint_at inverts index_of");
        v::prove(up == i, "P07 index_above of a member is its index");
    }
    match before {
        Some(m) => {
            let k = set.index_of(m);
            v::prove(k.is_some() && k.unwrap_or(0) + 1 == up, "P06 consecutive members have consecutive indices");
        }
        None => v::prove(up == 0, "P06 the first index is 0"),
    }
    match after {
        Some(m) => {
            let k = set.index_of(m);
            v::prove(k == Some(if has { up + 1 } else { up }), "P07 index_above is the index of the next member");
        }
        None => v::prove(len == (if has { up as usize + 1 } else { up as usize }), "P06 len counts the members"),
    }
    let k = v::nondet_u32();
    if k as usize >= len {
        v::prove(set.codepoint_at(k).is_none(), "P06 no code point at or beyond len");
    }
}

/// Numbers that are no code points.
pub fn h_set_beyond() {
    let set = v::t_set_new(v::any_around(pick(0), pick(1), false));
    let k = v::nondet_u32();
    v::assume(k > 0x10FFFF);
    v::prove(!set.contains(k), "P05 numbers above U+10FFFF are no members");
    v::prove(set.index_of(k).is_none(), "P05 index_of of numbers above U+10FFFF");
    v::prove(set.index_above(k) as usize == set.len(), "P07 index_above of numbers above U+10FFFF is len");
}

pub fn h_c_set_new(x: Vec<Interval>) -> IntervalSet {
    loop {}
}

/// Iteration over the set of an arbitrary canonical list (param bit 0: C is a member; bit 1: through
/// IntoIterator; bits 2-3: 0 from the front, 1 from the back, 2 either end at every step).
pub fn h_set_codepoints() {
    let (has, c, dir) = (pick(0), v::obs_c(), v::param() >> 2);
    let set = v::t_set_new(v::any_canonical(has));
    let mut it = if pick(1) { (&set).into_iter() } else { set.iter() };
    let mut seen = false;
    let (mut f, mut b) = (-1i64, 0x110000i64);
    loop {
        if dir == 0 || dir == 2 && v::nondet_bool() {
            match it.next() {
                Some(x) => {
                    v::prove((x as i64) > f, "P08 ascending from the front");
                    v::prove((x as i64) < b, "P08 the front stays before the back");
                    f = x as i64;
                    if x < c {
                    } else if x == c {
                        v::prove(!seen, "P08 no member twice");
                        seen = true;
                    }
                }
                None => break,
            }
        } else {
            match it.next_back() {
                Some(x) => {
                    v::prove((x as i64) < b, "P08 descending from the back");
                    v::prove((x as i64) > f, "P08 the back stays after the front");
                    b = x as i64;
                    if x < c {
                    } else if x == c {
                        v::prove(!seen, "P08 no member twice");
                        seen = true;
                    }
                }
                None => break,
            }
        }
    }
    v::prove(seen == has, "P08 every member exactly once and nothing else");
    v::prove(it.next().is_none() && it.next_back().is_none(), "P08 exhausted iterators stay exhausted");
}

/// Methods of the iterator that have a default: whatever replaces it must agree with stepping.
/// param bit 0: C is a member; rest: the method.
pub fn h_set_codepoints_more() {
    let (has, c, m) = (pick(0), v::obs_c(), v::param() >> 1);
    let set = v::t_set_new(v::any_canonical(has));
    let (n, len) = (v::nondet_usize(), set.len());
    let end = match m {
        0 => set.iter().last(),
        1 => set.iter().max(),
        2 => set.iter().min(),
        _ => None,
    };
    match m {
        0 | 1 | 2 => match end {
            Some(x) => {
                v::prove(m == 2 || !(has && c > x), "P08 last and max are not below a member");
                v::prove(m != 2 || !(has && c < x), "P08 min is not above a member");
                v::prove(x != c || has, "P08 last, min and max are members");
            }
            None => v::prove(!has, "P08 last, min and max exist in a set with members"),
        },
        3 => v::prove(set.iter().count() == len, "P08 count is the number of members"),
        4 => {
            let (lo, hi) = set.iter().size_hint();
            v::prove(lo <= len, "P08 size_hint does not promise too much");
            if let Some(h) = hi {
                v::prove(h >= len, "P08 size_hint does not promise too little");
            }
        }
        5 => match set.iter().nth(n) {
            Some(x) => {
                v::prove(n < len, "P08 nth ends with the members");
                v::prove(x != c || has && set.index_of(c) == Some(n as u32), "P08 nth is the member of that number");
            }
            None => v::prove(n >= len, "P08 nth finds every member"),
        },
        _ => match set.iter().nth_back(n) {
            Some(x) => {
                v::prove(n < len, "P08 nth_back ends with the members");
                v::prove(x != c || has && set.index_of(c) == Some((len - 1 - n) as u32), "P08 nth_back is the member of that number from the end");
            }
            None => v::prove(n >= len, "P08 nth_back finds every member"),
        },
    }
}
