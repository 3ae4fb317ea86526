"""The pure-Python part of the package: what it re-exports from the extension module."""
import ast, os
import build

NAMES = ("UnicodeVersion", "__version__", "as_general_categories", "available_versions", "categories", "query")
SRC = "crates/unicode-intervals-py/python/unicode_intervals/__init__.py"


class Finding:
    def __init__(self, key, text, detail=""):
        self.key, self.text, self.detail = key, text, detail


def reexports(p, ref):
    """every name of the interface is bound to the extension's attribute of that name and listed in __all__"""
    path = os.path.join(build.REPO, SRC)
    fs, n, ok = [], 0, 0
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError) as e:
        return [], 0, 0, {"python_package": "not analysed: %s" % e}
    bound, where, star, public, plain = {}, {}, False, None, True
    for x in tree.body:
        if isinstance(x, ast.ImportFrom) and (x.module or "").split(".")[-1] == "unicode_intervals":
            for a in x.names:
                if a.name == "*":
                    star = True
                else:
                    bound[a.asname or a.name] = a.name
                    where[a.asname or a.name] = x.lineno
        elif isinstance(x, (ast.Assign, ast.AnnAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                if isinstance(t, ast.Name) and t.id == "__all__":
                    try:
                        public = [str(s) for s in ast.literal_eval(x.value)]
                    except ValueError:
                        plain = False
                elif isinstance(t, ast.Name):
                    # an alias of an imported name, or something this rule knows nothing about
                    v = x.value
                    bound[t.id] = bound.get(v.id) if isinstance(v, ast.Name) else None
                    where[t.id] = x.lineno
                else:
                    plain = False
        elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            pass
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                bound.setdefault((a.asname or a.name).split(".")[0], None)
        else:
            plain = False
    for q in NAMES:
        n += 1
        if q in bound:
            if bound[q] == q or bound[q] is None:
                ok += 1
            else:
                fs.append(Finding("reexport|" + q, "P25 %s of the package is %s of the extension (%s:%d)" % (q, bound[q], SRC, where[q])))
        elif star and not q.startswith("_") or not plain:
            ok += 1
        else:
            fs.append(Finding("reexport|" + q, "P25 the package does not provide %s (%s)" % (q, SRC)))
        n += 1
        if public is None or q in public or not plain:
            ok += 1
        else:
            fs.append(Finding("all|" + q, "P25 __all__ does not list %s (%s)" % (q, SRC)))
    return fs, n, ok, {"python_names": len(NAMES)}


STUB = "crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi"
# Python annotations for which a value passes the conversion to the Rust type, and the other way round
INTO = {"str": ("&str", "String", "Cow<str>"), "int": ("u32", "u64", "usize", "i64"),
        "Sequence[str]": ("Vec<String>",), "list[str]": ("Vec<String>",), "tuple[str, ...]": ("Vec<String>",),
        "MutableSequence[str]": ("Vec<String>",)}
OUT = {"str": ("&str", "String", "&'staticstr", "Cow<str>"), "tuple": ("Py<PyTuple>", "Bound<PyTuple>", "&PyTuple")}


VARIANTS = {}


def signatures(p):
    """what the binding's declarations say: {(in a class, name): ([(name, keyword only, has default, Rust type)], result)}"""
    d = {}
    for f in p.fns:
        if "__sig_" not in f[0]:
            continue
        owner, rest = f[0].split("__sig_", 1)
        name, h = rest.rsplit("__", 1)
        ls = bytes.fromhex(h).decode().split("\n")
        if name.startswith("variants_of_"):
            VARIANTS[name[len("variants_of_"):]] = [x for x in ls if x]
            continue
        args = [tuple(a.split("|", 3)) for a in ls[:-1] if a]
        cls = [s for s in owner.split("::") if s][-1:]
        cls = cls and cls[0][:1].isupper()
        ret = ls[-1].replace("->", "")
        for w in ("PyResult<",):
            if ret.startswith(w):
                ret = ret[len(w):-1]
        d[bool(cls), name] = ([(a[0], a[1] == "k", a[2] != "", norm(a[3])) for a in args], norm(ret))
    return d


def norm(t):
    import re
    t = re.sub(r"'\w+,?", "", t.replace("std::borrow::", ""))
    t = t.replace("<>", "")
    return re.sub(r"\b(?:\w+::)+(?=\w)", "", t)


def union(a):
    """an annotation as (its members other than None, whether None is one)"""
    if a is None:
        return None, False
    xs = [x.strip() for x in ast.unparse(a).replace("Optional[", "None | [").split("|")] if "Optional[" not in ast.unparse(a) else [ast.unparse(a)[len("Optional["):-1], "None"]
    return [x.split(".")[-1] if "[" not in x else x.split("[")[0].split(".")[-1] + "[" + x.split("[", 1)[1] for x in xs if x != "None"], "None" in xs


def stub(p, ref):
    """the type stub declares the names of the module, with the parameters, defaults and types the extension has"""
    fs, n, ok = [], 0, 0
    path = os.path.join(build.REPO, STUB)
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError) as e:
        return [], 0, 0, {"type_stub": "not analysed: %s" % e}
    sig = signatures(p)
    variants = VARIANTS.pop("UnicodeVersion", [])
    names, fns, cls = {}, {}, None
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            names[x.name] = x
            fns[False, x.name] = x
            if isinstance(x, ast.ClassDef) and x.name == "UnicodeVersion":
                cls = x
        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
            names[x.target.id] = x
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    names[t.id] = x

    def check(good, key, text, x=None):
        nonlocal n, ok
        n += 1
        if good:
            ok += 1
        else:
            fs.append(Finding("stub|" + key, "P27 %s (%s%s)" % (text, STUB, ":%d" % x.lineno if x is not None else "")))

    for q in NAMES:
        check(q in names, q, "the stub does not declare %s" % q)
    for q in names:
        check(q in NAMES or q.startswith("_") and q != "__all__" or q == "__all__", "extra " + q, "the stub declares %s, which the module does not have" % q, names[q])
    methods = {}
    if cls is not None:
        attrs = {}
        for x in cls.body:
            if isinstance(x, ast.FunctionDef):
                methods[x.name] = x
                fns[True, x.name] = x
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                attrs[x.target.id] = x
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        attrs[t.id] = x
        for v in variants:
            check(v in attrs, "attr " + v, "the stub does not declare UnicodeVersion.%s" % v, cls)
        for a in attrs:
            check(a in variants or not variants, "extra attr " + a, "the stub declares UnicodeVersion.%s, which the class does not have" % a, attrs[a])
    for (c, name), x in sorted(fns.items()):
        if not isinstance(x, ast.FunctionDef):
            continue
        if (c, name) not in sig:
            if c and name.startswith("__"):
                continue
            if c or name in NAMES:
                if c and any(k for k in sig if k[0]):
                    check(False, "method " + name, "the stub declares UnicodeVersion.%s, which the class does not have" % name, x)
            continue
        args, ret = sig[c, name]
        a = x.args
        pos = a.posonlyargs + a.args
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in x.decorator_list)
        if c and not static:
            pos = pos[1:]
        dp = [False] * (len(pos) - len(a.defaults)) + [True] * len(a.defaults)
        got = [(q.arg, False, d, q.annotation) for q, d in zip(pos, dp[-len(pos):] if pos else [])]
        got += [(q.arg, True, d is not None, q.annotation) for q, d in zip(a.kwonlyargs, a.kw_defaults)]
        w = "UnicodeVersion." + name if c else name
        check([g[0] for g in got if not g[1]] == [q[0] for q in args if not q[1]], w + " positional", "positional parameters of %s are %s in the stub, %s in the extension" % (w, [g[0] for g in got if not g[1]], [q[0] for q in args if not q[1]]), x)
        check(sorted(g[0] for g in got if g[1]) == sorted(q[0] for q in args if q[1]), w + " keyword", "keyword parameters of %s differ between stub and extension" % w, x)
        check(a.vararg is None and a.kwarg is None, w + " variadic", "%s is variadic in the stub" % w, x)
        by = {q[0]: q for q in args}
        for g in got:
            q = by.get(g[0])
            if q is None:
                continue
            check(g[2] == q[2], w + " default " + g[0], "parameter %s of %s is %s in the stub, %s in the extension" % (g[0], w, "optional" if g[2] else "required", "optional" if q[2] else "required"), x)
            t = q[3]
            opt = t.startswith("Option<")
            if opt:
                t = t[7:-1]
            us, none = union(g[3])
            if us is None:
                continue
            check(none == opt, w + " None " + g[0], "parameter %s of %s %s None in the stub, but %s in the extension" % (g[0], w, "allows" if none else "does not allow", "does" if opt else "does not"), x)
            for u in us:
                if t == "PyUnicodeVersion":
                    good = u == "UnicodeVersion"
                elif any(t in ts for ts in INTO.values()):
                    good = t in INTO.get(u, ())
                else:
                    continue
                check(good, "%s type %s %s" % (w, g[0], u), "parameter %s of %s takes any %s by the stub, which the extension (%s) does not accept" % (g[0], w, u, t), x)
        us, none = union(x.returns)
        if us and len(us) == 1:
            u = us[0]
            if ret in ("Self", "PyUnicodeVersion"):
                check(u in ("UnicodeVersion", "Self"), w + " result", "%s returns a UnicodeVersion, not %s" % (w, u), x)
            elif ret in OUT["tuple"]:
                check(u.startswith("tuple["), w + " result", "%s returns a tuple, not %s" % (w, u), x)
            elif ret in OUT["str"]:
                check(u == "str", w + " result", "%s returns a str, not %s" % (w, u), x)
            check(not none, w + " result None", "%s never returns None" % w, x)
    RES = {"query": "tuple[tuple[int, int], ...]", "categories": "tuple[str, ...]", "as_general_categories": "tuple[str, ...]"}
    for q, t in RES.items():
        x = names.get(q)
        if isinstance(x, ast.FunctionDef) and x.returns is not None and ast.unparse(x.returns).startswith("tuple["):
            check(ast.unparse(x.returns) == t, q + " elements", "%s returns %s, not %s" % (q, t, ast.unparse(x.returns)), x)
    return fs, n, ok, {"stub_signatures": len([k for k in fns if k in sig]), "stub_names": len(names)}
