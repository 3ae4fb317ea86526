"""The core crate keeps no state: no mutable static, no thread-local, no environment, clock, file or random source.

The rule is over the MIR of every function of the crate that the analysed program reaches (the harnesses
call the whole public interface): the statics it names, the thread-locals it uses and the functions it calls."""
from pyrule import Finding

CRATE = "unicode_intervals"
# sources of answers that are not functions of the arguments
OUTSIDE = ("std::env::", "std::time::", "std::fs::", "std::net::", "std::process::", "std::thread::current", "std::thread::local::",
           "std::io::stdin", "std::hash::random::", "std::collections::hash_map::RandomState", "std::random::", "std::thread::LocalKey",
           "std::backtrace::")
# written once, with what does not depend on a caller: a constant worked out late
LATE = ("LazyLock<", "LazyCell<")
# written once: a constant if nothing of the first caller goes into it
ONCE = ("OnceLock<", "OnceCell<", "sync::Once")


def walk(x, tls, calls):
    """thread-locals and functions named in a body"""
    if isinstance(x, list):
        if len(x) == 1 and x[0] == "tls":
            tls.append(1)
        for y in x:
            walk(y, tls, calls)
    elif isinstance(x, dict):
        d = x.get("rdef") or x.get("def")
        if isinstance(d, str):
            calls.add((d, tuple(a for a in (x.get("rargs") or x.get("args") or ()) if isinstance(a, int))))
        for y in x.values():
            walk(y, tls, calls)


CELLS = ("core::cell::UnsafeCell", "std::cell::UnsafeCell", "core::sync::atomic::", "std::sync::atomic::", "std::rc::Rc", "alloc::rc::Rc")


def inner(p, t, seen):
    """a type with interior mutability (or shared by count without locks) inside t"""
    d = str(t.get("def", ""))
    if d.startswith(CELLS):
        return t["n"]
    if t["n"] in seen:
        return None
    seen.add(t["n"])
    nxt = [f[1] for v in t.get("v") or () for f in v["f"]]
    nxt += [a for a in t.get("args") or () if isinstance(a, int)]
    nxt += [t["e"]] if isinstance(t.get("e"), int) else []
    nxt += [x for x in t.get("f") or () if isinstance(x, int)]
    for i in nxt:
        c = inner(p, p.types[i], seen)
        if c:
            return c
    return None


def state(p, ref):
    fs, n, ok, und, fills = [], 0, 0, [], []
    own = {i: f for i, f in p.insts.items() if f["crate"] == CRATE}
    for i, f in sorted(own.items()):
        n += 1
        bad = False
        tls, calls = [], set()
        walk(f.get("body"), tls, calls)
        if tls:
            bad = True
            fs.append(Finding("tls|" + f["def"], "P26 %s uses a thread-local (%s)" % (f["def"], p.span(f["span"]))))
        for d, args in sorted(calls):
            if any(o.strip("<") in d for o in ONCE) and d.endswith(("::get_or_init", "::set", "::get_or_try_init")):
                f0 = p.types[args[-1]] if args else {}
                up = p.types[f0["up"]].get("f") if f0.get("k") == "closure" and f0.get("up", -1) >= 0 else None
                fills.append((f["def"], p.span(f["span"]), d, d.endswith("::set") or bool(up)))
            if any(o in d for o in OUTSIDE):
                bad = True
                fs.append(Finding("call|%s|%s" % (f["def"], d), "P26 %s calls %s (%s)" % (f["def"], d, p.span(f["span"]))))
        ok += not bad
    # what a value of a public type can reach through shared references
    for t in p.types:
        if t.get("k") == "adt" and str(t.get("def", "")).startswith(CRATE + "::"):
            n += 1
            c = inner(p, t, set())
            if c:
                fs.append(Finding("type|" + t["def"], "P26 a shared %s can be changed: it contains %s" % (t["def"], c)))
            else:
                ok += 1
    ns = 0
    for a in p.allocs:
        if isinstance(a, dict) and str(a.get("static", "")).startswith(CRATE + "::"):
            n += 1
            ns += 1
            if a.get("init") and not a["init"]["m"]:
                ok += 1
                continue
            ty = str(p.types[a["t"]].get("n") or p.types[a["t"]])
            if any(k in ty for k in LATE):
                ok += 1
            elif any(k in ty for k in ONCE):
                # a cell filled with what a caller gave answers later callers with it
                bad = [x for x in fills if x[3]]
                if not bad:
                    ok += 1
                elif ty.startswith("["):
                    und.append(a["static"])
                else:
                    fs.append(Finding("once|" + a["static"], "P26 %s keeps what its first caller gave: filled by %s in %s (%s)" % (a["static"], bad[0][2], bad[0][0], bad[0][1])))
            else:
                fs.append(Finding("static|" + a["static"], "P26 %s is a mutable static" % a["static"]))
    return fs, n, ok, {"functions": len(own), "statics": ns, "write_once_statics_not_decided": und,
                       "functions_not_reached": [f[0] for f in p.fns if f[1] == CRATE and f[0] not in {g["def"] for g in own.values()} and f[0] not in {g["name"] for g in own.values()}]}
