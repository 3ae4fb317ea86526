//! Stand-ins for pyo3's attribute macros: the item itself, plus its Python calling convention as plain Rust.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const STRIP: [&str; 14] = ["new", "staticmethod", "classmethod", "getter", "setter", "pyo3", "classattr", "args", "pyo3_built", "deleter", "pymodule_init", "pyfunction", "pymodule_export", "slots"];

fn p(s: &str) -> TokenStream {
    s.parse().expect("tokens")
}

/// drops `#[x..]` for x in STRIP, at every depth 0/1 of the tokens given; calls `f` with each dropped group
fn strip(ts: TokenStream, deep: bool, f: &mut dyn FnMut(&TokenStream)) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(h), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if h.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                let first = g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                if STRIP.contains(&first.as_str()) {
                    f(&g.stream());
                    i += 2;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) if deep => {
                let mut n = Group::new(g.delimiter(), strip(g.stream(), g.delimiter() == Delimiter::Parenthesis, f));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    let mut depth = 0i32;
    let mut prev = ' ';
    for t in ts {
        if let TokenTree::Punct(c) = &t {
            match c.as_char() {
                '<' => depth += 1,
                '>' if prev != '-' && prev != '=' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(vec![]);
                    prev = ',';
                    continue;
                }
                _ => {}
            }
            prev = c.as_char();
        } else {
            prev = ' ';
        }
        out.last_mut().unwrap().push(t);
    }
    out.retain(|x| !x.is_empty());
    out
}

fn text(v: &[TokenTree]) -> String {
    v.iter().cloned().collect::<TokenStream>().to_string()
}

/// `key = "text"` among comma-separated items
fn option(ts: &TokenStream, key: &str) -> Option<String> {
    for it in split(ts.clone()) {
        if it.len() == 3 && it[0].to_string() == key {
            return Some(it[2].to_string().trim_matches('"').to_string());
        }
    }
    None
}

/// a function of no effect whose name carries the signature: what the checks of the type stub read
fn signature_mark(name: &str, args: &[String], ret: &str) -> String {
    let text = format!("{}\n{}", args.join("\n"), ret).replace(' ', "");
    let hex: String = text.bytes().map(|b| format!("{b:02x}")).collect();
    format!("#[allow(non_snake_case, dead_code)] pub fn __sig_{name}__{hex}() {{}}\n")
}

fn name_of(ts: &TokenStream, kinds: &[&str]) -> String {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len().saturating_sub(1) {
        if let (TokenTree::Ident(k), TokenTree::Ident(n)) = (&v[i], &v[i + 1]) {
            if kinds.contains(&k.to_string().as_str()) {
                return n.to_string();
            }
        }
    }
    panic!("item name")
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let n = name_of(&item, &["struct", "enum"]);
    let py = option(&attr, "name").unwrap_or(n.clone());
    let variants: Vec<String> = item
        .clone()
        .into_iter()
        .filter_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
            _ => None,
        })
        .flat_map(split)
        .filter_map(|v| match v.last() {
            Some(TokenTree::Ident(i)) => Some(i.to_string()),
            _ => None,
        })
        .collect();
    let mut out = strip(item, true, &mut |_| ());
    out.extend(p(&signature_mark(&format!("variants_of_{py}"), &variants, "")));
    out.extend(p(&format!(
        "#[allow(unused_imports, non_camel_case_types)] pub(crate) type __class_{py} = {n};
         impl ::pyo3::PyClassStub for {n} {{ const NAME: &'static str = {py:?}; }}
         impl ::pyo3::IntoPyObject for {n} {{ fn gather<I: Iterator<Item = Self>>(it: I) -> ::pyo3::types::PyTuple {{ ::pyo3::types::PyTuple {{ pairs: Vec::new(), names: Vec::new(), kind: 3, raw: ::pyo3::v::leak(it.collect::<Vec<{n}>>()) as *const Vec<{n}> as *const () }} }} }}"
    )));
    out
}

/// methods without self under the name Python knows them by
fn aliases(ts: &TokenStream) -> String {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut out = String::new();
    let (mut ctor, mut stat, mut name) = (false, false, None);
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                match w[0].to_string().as_str() {
                    "new" => ctor = true,
                    "staticmethod" => stat = true,
                    "pyo3" => {
                        if let Some(TokenTree::Group(h)) = w.get(1) {
                            name = option(&h.stream(), "name").or(name)
                        }
                    }
                    _ => {}
                }
            }
            TokenTree::Ident(k) if k.to_string() == "fn" => {
                let f = v[i + 1].to_string();
                if let TokenTree::Group(g) = &v[i + 2] {
                    let mut args = vec![];
                    for a in split(g.stream()) {
                        let c = match a.iter().position(|t| t.to_string() == ":") {
                            Some(c) => c,
                            None => continue,
                        };
                        let ty = text(&a[c + 1..]);
                        if ty.contains("Python") || a[c - 1].to_string() == "self" {
                            continue;
                        }
                        args.push(format!("{}|p||{}", a[c - 1], ty));
                    }
                    let mut ret = String::new();
                    let mut j = i + 3;
                    while j < v.len() && !matches!(&v[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                        ret += &v[j].to_string();
                        j += 1;
                    }
                    let n = if ctor { "__new__".to_string() } else { name.clone().unwrap_or(f.clone()) };
                    out += &signature_mark(&n, &args, &ret);
                }
                if ctor || stat {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let args: Vec<String> = split(g.stream()).iter().map(|a| { let c = a.iter().position(|t| t.to_string() == ":").unwrap(); a[c - 1].to_string() }).collect();
                        let mut ret = TokenStream::new();
                        let mut j = i + 3;
                        while !matches!(&v[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                            ret.extend([v[j].clone()]);
                            j += 1;
                        }
                        let n = if ctor { "new".to_string() } else { name.clone().unwrap_or(f.clone()) };
                        out += &format!("pub fn __py_{n}({}) {} {{ Self::{f}({}) }}\n", g.stream(), ret, args.join(", "));
                    }
                }
                (ctor, stat, name) = (false, false, None);
            }
            _ => {}
        }
        i += 1;
    }
    out
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    // attributes of methods are one level down
    let mut out = Vec::new();
    for t in item {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut extra = aliases(&g.stream());
                let mut body = strip(g.stream(), false, &mut |_| ());
                body.extend(p(&std::mem::take(&mut extra)));
                out.push(TokenTree::Group(Group::new(Delimiter::Brace, body)))
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item, false, &mut |_| ())
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut sig: Option<TokenStream> = None;
    let mut py: Option<String> = option(&attr, "name");
    let mut look = |ts: &TokenStream| {
        // pyo3 ( ... )
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let inner = match v.get(1) {
            Some(TokenTree::Group(g)) => g.stream(),
            _ => return,
        };
        if let Some(n) = option(&inner, "name") {
            py = Some(n);
        }
        for it in split(inner) {
            if it[0].to_string() == "signature" {
                if let Some(TokenTree::Group(g)) = it.get(2) {
                    sig = Some(g.stream());
                }
            }
        }
    };
    let out = strip(item, false, &mut look);
    for it in split(attr.clone()) {
        if it[0].to_string() == "signature" {
            if let Some(TokenTree::Group(g)) = it.get(2) {
                sig = Some(g.stream());
            }
        }
    }
    let name = name_of(&out, &["fn"]);
    let v: Vec<TokenTree> = out.clone().into_iter().collect();
    let at = v.iter().position(|t| t.to_string() == "fn").unwrap();
    let mut lifetimes = String::new();
    let mut k = at + 2;
    if v[k].to_string() == "<" {
        // generics: lifetimes only
        while v[k].to_string() != ">" {
            lifetimes += &v[k].to_string();
            if !matches!(&v[k], TokenTree::Punct(c) if c.as_char() == '\'') {
                lifetimes += " ";
            }
            k += 1;
        }
        lifetimes += ">";
        k += 1;
    }
    let params = match &v[k] {
        TokenTree::Group(g) => g.stream(),
        _ => panic!("parameters"),
    };
    let mut ret = String::new();
    for t in &v[k + 1..] {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => break,
            t => ret += &format!("{}{}", t, if matches!(t, TokenTree::Punct(c) if c.spacing() == proc_macro::Spacing::Joint || c.as_char() == '\'') { "" } else { " " }),
        }
    }
    // name, type, is Python token
    let mut ps: Vec<(String, String, bool)> = vec![];
    for it in split(params) {
        let c = it.iter().position(|t| t.to_string() == ":").expect("typed parameter");
        let ty = text(&it[c + 1..]);
        let n = it[c - 1].to_string();
        let is_py = ty.split('<').next().unwrap().trim().rsplit("::").next().unwrap().trim() == "Python";
        ps.push((n, ty, is_py));
    }
    // (name, default, positional)
    let mut args: Vec<(String, Option<String>, bool)> = vec![];
    match sig {
        None => {
            for (n, _, is_py) in &ps {
                if !is_py {
                    args.push((n.clone(), None, true));
                }
            }
        }
        Some(s) => {
            let mut pos = true;
            for it in split(s) {
                match it[0].to_string().as_str() {
                    "*" if it.len() == 1 => pos = false,
                    "/" => {}
                    n => {
                        let d = if it.len() > 2 && it[1].to_string() == "=" { Some(text(&it[2..])) } else { None };
                        args.push((n.to_string(), d, pos));
                    }
                }
            }
        }
    }
    let pos: Vec<String> = args.iter().filter(|a| a.2).map(|a| a.0.clone()).collect();
    let mut sorted = args.clone();
    sorted.sort();
    let ty = |n: &str| ps.iter().find(|q| q.0 == n).expect("parameter of the signature").1.clone();
    let decl: Vec<String> = sorted.iter().map(|a| format!("__{}: Option<{}>", a.0, ty(&a.0))).collect();
    let call: Vec<String> = ps
        .iter()
        .map(|(n, _, is_py)| {
            if *is_py {
                return "::pyo3::stub_py()".to_string();
            }
            let a = args.iter().find(|a| a.0 == *n).expect("argument");
            match &a.1 {
                Some(d) => format!("match __{n} {{ Some(x) => x, None => {d} }}"),
                None => format!("match __{n} {{ Some(x) => x, None => panic!(\"required argument missing\") }}"),
            }
        })
        .collect();
    let ret = ret.replace("'_", "'static");
    let names: Vec<String> = sorted.iter().map(|a| a.0.clone()).collect();
    let pyname = py.unwrap_or(name.clone());
    let marks: Vec<String> = args.iter().map(|a| format!("{}|{}|{}|{}", a.0, if a.2 { "p" } else { "k" }, a.1.clone().unwrap_or_default(), ty(&a.0))).collect();
    let mut res = out;
    res.extend(p(&signature_mark(&pyname, &marks, &ret)));
    res.extend(p(&format!(
        "#[allow(non_snake_case)] pub fn __call_{pyname}__{}{lifetimes}({}) {ret} {{ {name}({}) }}
         #[allow(non_upper_case_globals)] pub const __pos_{pyname}: &str = {:?};
         #[allow(non_upper_case_globals)] pub const __pyname_{name}: &str = {pyname:?};",
        names.join("__"),
        decl.join(", "),
        call.join(", "),
        pos.join(",")
    )));
    res
}

#[proc_macro]
pub fn wrap_pyfunction(ts: TokenStream) -> TokenStream {
    let parts = split(ts);
    let mut path: Vec<TokenTree> = parts[0].clone();
    let last = path.pop().unwrap().to_string();
    path.push(TokenTree::Ident(Ident::new(&format!("__pyname_{last}"), Span::call_site())));
    let e = format!("::pyo3::PyCFunction {{ name: {} }}", text(&path));
    if parts.len() > 1 {
        p(&format!("Ok::<::pyo3::PyCFunction, ::pyo3::PyErr>({e})"))
    } else {
        p(&format!("&{e}"))
    }
}
