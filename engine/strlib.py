"""Texts derived from an unknown text (trimming, changing case, cutting, stripping).

A derived text is either the source itself or another one, of which only the derivation is kept. Whether
it may equal a constant is decided by solving the derivation for the source: a text that yields the
constant and agrees with all that is known of the source is a witness; without one the case is tainted."""
from primlib import prim, some, NONE, strval, STR
from dom import Lin, fresh_id
from state import Arr, Seg
import primlib

WS = " \t\n\x0b\x0c\r\x85\xa0"


def titles(k):
    return [k, k.upper(), k.lower(), k.swapcase(), k.capitalize()] + [k[:i] + k[i:i + 1].swapcase() + k[i + 1:] for i in range(len(k))]


# op -> (function on constants, sources that may yield a constant)
OPS = {
    "trim": (lambda s: s.strip(WS), lambda k: [k + " ", " " + k, " " + k + " ", k + "\n"]),
    "trim_start": (lambda s: s.lstrip(WS), lambda k: [" " + k, "\n" + k]),
    "trim_end": (lambda s: s.rstrip(WS), lambda k: [k + " ", k + "\n"]),
    "lower": (lambda s: s.lower(), titles),
    "upper": (lambda s: s.upper(), titles),
    "alower": (lambda s: "".join(c.lower() if c < "\x80" else c for c in s), titles),
    "aupper": (lambda s: "".join(c.upper() if c < "\x80" else c for c in s), titles),
}
ALIAS = {"trim_left": "trim_start", "trim_right": "trim_end", "to_lowercase": "lower", "to_uppercase": "upper", "to_ascii_lowercase": "alower", "to_ascii_uppercase": "aupper"}


def fn(op):
    if isinstance(op, str):
        return OPS[op]
    k, *a = op
    if k == "cut":
        i, j = a

        def f(s):
            b = s.encode()
            return b[i:len(b) if j is None else j].decode("utf-8", "replace")
        n = None if j is None else j - i
        return f, lambda t: [] if n is not None and len(t.encode()) != n else ["x" * i + t + y for y in (("", "x", "xy", ".") if j is not None else ("",))]
    if k == "pre":
        p = a[0]
        return (lambda s: s[len(p):]), lambda t: [p + t]
    if k == "suf":
        p = a[0]
        return (lambda s: s[:len(s) - len(p)]), lambda t: [t + p]
    if k in ("tm", "tms", "tme"):
        p = a[0]

        def f(s):
            while p and k != "tme" and s.startswith(p):
                s = s[len(p):]
            while p and k != "tms" and s.endswith(p):
                s = s[:len(s) - len(p)]
            return s
        return f, lambda t: [x for x in (p + t, t + p, p + t + p)]
    if k == "repl":
        p, q = a
        return (lambda s: s.replace(p, q)), lambda t: [t.replace(q, p)] if q else [t + p, p + t]
    return None, lambda t: []


def known(st, u):
    """constant text of a string value, if known"""
    if isinstance(u, bytes):
        return u
    return st.memo.get(('strval', u))


def lenok(st, u, n):
    """may u have n bytes"""
    A = st.arr.get(u)
    m = st.memo.get(('blen', A.n)) if A is not None else None
    return m is None or st.lower(m) <= n <= st.upper(m)


def assume_eq(st, x):
    return st.assume_le(x) and st.assume_le(Lin(0).sub(x))


def feasible(st, u, k):
    """may the unknown text u be the constant k: True, False or None (undecided)"""
    if st.memo.get(('strne', u, k)):
        return False
    if not lenok(st, u, len(k)):
        return False
    w = known(st, u)
    if w is not None:
        return w == k
    d = st.memo.get(('derived', u))
    if d is None:
        return None if st.memo.get(('vague', u)) else True
    op, src = d
    f, pre = fn(op)
    if f is None:
        return None
    t = k.decode("utf-8", "replace")
    w = known(st, src)
    if w is not None:
        return f(w.decode("utf-8", "replace")) == t
    for c in pre(t):
        if f(c) == t and feasible(st, src, c.encode()) is True:
            return True
    # outside the image of the operation altogether
    if isinstance(op, str) and f(t) != t:
        return False
    if op[0] == "cut" and op[2] is not None and len(k) != op[2] - op[1]:
        return False
    return None


def fresh(st, src, op, has=None):
    """a text with the characters of src, or some of them"""
    A = st.arr[src]
    n = st.sym(0, 1 << 38)
    aid = ('A', fresh_id())
    cl = []
    for g in A.segs:
        for c, t, gid in g.cl:
            cl.append((c, t, gid))
    vague = len(A.segs) != 1 or isinstance(op, str) and op not in ("trim", "trim_start", "trim_end")
    seg = A.segs[0] if len(A.segs) == 1 else None
    st.arr[aid] = Arr('pt', n, (Seg(Lin(0), n, seg.cl if seg is not None else (), must=False),)) if seg is not None and not vague else Arr('pt', n, (Seg(Lin(0), n, anychars(st), must=False),))
    st.memo[('derived', aid)] = (op, src)
    return ('str', aid)


def anychars(st):
    from state import Ctx
    from dom import L
    cl = []
    if not st.z.has(Ctx.C):
        x, gid = fresh_id(), fresh_id()
        st.Z().new(x, 0, 0x10FFFF, gid)
        return (('?', L(x), gid),)
    for c in ('B', 'A'):
        gid, x = fresh_id(), fresh_id()
        z = st.Z()
        z.new(x, 0, 0x10FFFF, gid)
        if c == 'B':
            z.add(x, Ctx.C, -1)
        else:
            z.add(Ctx.C, x, -1)
        cl.append((c, L(x), gid))
    gid = fresh_id()
    from state import Ctx as X
    cl.insert(1, ('C', L(X.C), gid))
    return tuple(cl)


def derive(self, c, op, total=True):
    """[(st, value)] of op applied to the receiver; partial operations say None as well"""
    v = strval(self, c.st, c.vs[0])
    wrap = (lambda x: x) if total else some
    if not (isinstance(v, tuple) and v[0] == 'str'):
        return None
    w = known(c.st, v[1])
    f, _ = fn(op)
    if w is not None:
        t = w.decode("utf-8", "replace")
        if not total:
            if op[0] == "pre" and not t.startswith(op[1]) or op[0] == "suf" and not t.endswith(op[1]):
                return [(c.st, NONE)]
            if op[0] == "cut" and (op[2] is not None and op[2] > len(w) or op[1] > len(w)):
                return [(c.st, NONE)]
        return [(c.st, wrap(('str', f(t).encode())))]
    if c.st.memo.get(('derived', v[1]), (None,))[0] == op and isinstance(op, str):
        return [(c.st, wrap(v))]
    out = []
    if not total:
        out.append((c.st.copy(), NONE))
    if isinstance(op, str) or op[0] in ("tm", "tms", "tme", "repl") or op[0] == "cut" and op[1] == 0 and op[2] is None:
        out.append((c.st.copy(), wrap(v)))
    s = c.st.copy()
    x = fresh(s, v[1], op)
    if not isinstance(op, str) and op[0] == "cut" and op[2] is not None:
        assume_eq(s, self.str_blen(s, x).addk(op[1] - op[2]))
    out.append((s, wrap(x)))
    return out


def unary(name):
    op = ALIAS.get(name, name)
    names = [STR + name, "std::str::<impl str>::" + name, "alloc::str::<impl str>::" + name]

    def f(self, c):
        return derive(self, c, op)
    f.__name__ = "str_" + name
    prim(*names)(f)


for _n in ("trim", "trim_start", "trim_end", "trim_left", "trim_right", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
    unary(_n)


def pattern(self, c, k):
    """constant pattern argument: text"""
    v = c.vs[k]
    if isinstance(v, Lin) and not v.t:
        return chr(v.k)
    v = strval(self, c.st, v)
    if isinstance(v, tuple) and v[0] == 'str':
        w = known(c.st, v[1])
        return w.decode() if w is not None else None
    return None


@prim(STR + "strip_prefix", STR + "strip_suffix", STR + "trim_matches", STR + "trim_start_matches", STR + "trim_end_matches", "alloc::str::<impl str>::replace", "std::str::<impl str>::replace")
def str_strip(self, c):
    n = c.c["rdef"].rsplit("::", 1)[1]
    p = pattern(self, c, 1)
    if p is None:
        return None
    if n == "replace":
        q = pattern(self, c, 2)
        if q is None:
            return None
        return derive(self, c, ("repl", p, q))
    k = {"strip_prefix": "pre", "strip_suffix": "suf", "trim_matches": "tm", "trim_start_matches": "tms", "trim_end_matches": "tme"}[n]
    return derive(self, c, (k, p), k[0] == "t")


@prim(STR + "starts_with", STR + "ends_with", STR + "contains", STR + "eq_ignore_ascii_case")
def str_test(self, c):
    n = c.c["rdef"].rsplit("::", 1)[1]
    p = pattern(self, c, 1)
    v = strval(self, c.st, c.vs[0])
    if p is None or not (isinstance(v, tuple) and v[0] == 'str'):
        return None
    w = known(c.st, v[1])
    if w is not None:
        t = w.decode("utf-8", "replace")
        al = fn("alower")[0]
        return [(c.st, {"starts_with": t.startswith(p), "ends_with": t.endswith(p), "contains": p in t, "eq_ignore_ascii_case": al(t) == al(p)}[n])]
    out = []
    no = c.st.copy()
    if n == "eq_ignore_ascii_case":
        no.memo[('strne', v[1], p.encode())] = True
    out.append((no, False))
    if n == "eq_ignore_ascii_case":
        al = fn("alower")[0]
        s = c.st
        ks = [k.encode() for k in dict.fromkeys(titles(p)) if al(k) == al(p)]
        fz = [feasible(s, v[1], k) for k in ks]
        # exactly the pattern itself, or another spelling of it
        if fz[0] is not False:
            y = s.copy()
            if fz[0] is None:
                y.add_taint("text derived from another")
            y.memo[('strval', v[1])] = p.encode()
            out.append((y, True))
        y = s.copy()
        y.memo[('strne', v[1], p.encode())] = True
        if not any(z is True for z in fz[1:]):
            if all(z is False for z in fz[1:]) and len(ks) > 1 and len(p) <= 2:
                return out
            y.add_taint("text derived from another")
        y.memo[('vague', v[1])] = 1
        out.append((y, True))
        return out
    y = c.st
    m = y.memo.get(('blen', y.arr[v[1]].n))
    if m is not None and y.upper(m) <= len(p.encode()):
        # nothing but the pattern itself
        if feasible(y, v[1], p.encode()) is False:
            return [(no, False)]
        y.memo[('strval', v[1])] = p.encode()
        assume_eq(y, m.addk(-len(p.encode())))
        return [(no, False), (y, True)]
    y.memo[('vague', v[1])] = y.memo.get(('vague', v[1]), 0) + 1
    out.append((y, True))
    return out


@prim("witness vague")
def vague(self, st):
    """is some text known by more than one partial test, or by one and a bounded length"""
    for (k, *u), n in st.memo.items():
        if k == 'vague' and u[0] in st.arr:
            m = st.memo.get(('blen', st.arr[u[0]].n))
            if n > 1 or m is not None and st.upper(m) < 64:
                return True
    return False


def bounds(self, c, it, v):
    """constant byte range"""
    M = c.M
    nm = M.p.types[it].get("n") or M.p.types[it].get("name") or ""
    full = primlib.range_of(M, c.st, it, v, Lin(1 << 50))
    if full is None:
        return None
    a, b = full
    if a.t or b.t:
        return None
    return a.k, (None if b.k == 1 << 50 else b.k)


@prim(STR + "get", "core::str::traits::<impl std::ops::Index<I> for str>::index", "std::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def str_get(self, c):
    it = c.targ(0) if c.c["rdef"].endswith("get") else None
    for k in range(3):
        if it is not None and c.M.p.types[it]["k"] in ("adt",) or k == 2:
            break
        it = c.targ(k)
    if it is None:
        return None
    r = bounds(self, c, it, c.vs[1])
    if r is None:
        return None
    part = c.c["rdef"].endswith("get")
    out = derive(self, c, ("cut",) + r, total=False)
    if out is None or part:
        return out
    res = []
    for s, x in out:
        if x == NONE:
            c.M.alarm("panic", "byte index out of bounds or inside a character", c.fr, c.sp, s)
        else:
            res.append((s, x[2][0]))
    return res
