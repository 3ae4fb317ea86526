"""Formatting: texts put together from constants, other texts and numbers.

A text that is not constant is an unknown text of which the pieces are kept; two such texts are the same
if their pieces are."""
from primlib import prim, strval, STR
from dom import Lin, fresh_id
from state import Arr, Seg, UNIT
import strlib

OK = ('e', 0, (UNIT,))


def flat(st, pieces):
    out = []
    for x in pieces:
        if isinstance(x, tuple) and x[0] == 'str':
            w = strlib.known(st, x[1])
            if w is None:
                more = st.memo.get(('pieces', x[1]))
                more = flat(st, more) if more else [x]
            else:
                more = [w]
        elif isinstance(x, Lin):
            more = [str(x.k).encode()] if not x.t else [x]
        else:
            more = [x]
        for y in more:
            if isinstance(y, bytes) and out and isinstance(out[-1], bytes):
                out[-1] += y
            elif y != b"":
                out.append(y)
    return out


def concat(st, pieces):
    ps = flat(st, pieces)
    if not ps:
        return ('str', b"")
    if len(ps) == 1 and isinstance(ps[0], bytes):
        return ('str', ps[0])
    if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 'str':
        return ps[0]
    n = st.sym(0, 1 << 38)
    aid = ('A', fresh_id())
    st.arr[aid] = Arr('pt', n, (Seg(Lin(0), n, strlib.anychars(st), must=False),))
    st.memo[('pieces', aid)] = tuple(ps)
    st.memo[('vague', aid)] = 2
    return ('str', aid)


def same(st, a, b):
    """True, False or None"""
    x, y = flat(st, [a]), flat(st, [b])
    if len(x) == len(y) and all(p == q or isinstance(p, Lin) and isinstance(q, Lin) and st.is_eq(p.sub(q)) for p, q in zip(x, y)):
        return True
    if x == y:
        return True
    # both put together: differing constant beginnings or ends
    if x and y:
        if isinstance(x[0], bytes) and isinstance(y[0], bytes):
            n = min(len(x[0]), len(y[0]))
            if x[0][:n] != y[0][:n]:
                return False
        if isinstance(x[-1], bytes) and isinstance(y[-1], bytes):
            n = min(len(x[-1]), len(y[-1]))
            if x[-1][len(x[-1]) - n:] != y[-1][len(y[-1]) - n:]:
                return False
        sk = lambda l: tuple(p if isinstance(p, bytes) else "n" if isinstance(p, Lin) else p for p in l)
        if sk(x) == sk(y) and any(isinstance(p, Lin) for p in x):
            # the same but for numbers that need not be equal
            return 'differ'
        if isinstance(x[0], bytes) != isinstance(y[0], bytes) or len(x) != len(y):
            return 'differ' if known_shape(x) and known_shape(y) else None
        if known_shape(x) and known_shape(y):
            return 'differ'
    return None


def known_shape(ps):
    """nothing but constants and texts or numbers the harness gave"""
    return all(isinstance(p, (bytes, Lin)) or p[0] == 'str' for p in ps)


def display(self, c, st, ty, v):
    """[(st, pieces)] of a value of type ty (v: the value, or a reference to it)"""
    M = c.M
    t = M.p.types[ty]
    if t["k"] in ("ref", "ptr"):
        if M.p.types[t["e"]]["k"] == "str":
            x = strval(self, st, v)
            return [(st, [x])] if isinstance(x, tuple) and x[0] == 'str' else [(st, None)]
        if isinstance(v, tuple) and v[0] == 'r':
            out = []
            for s, x in M.load(st, v[1]):
                out += display(self, c, s, t["e"], x)
            return out
        return [(st, None)]
    if t["k"] == "str" or t["k"] == "adt" and t["def"].endswith(("string::String", "borrow::Cow", "boxed::Box")):
        x = strval(self, st, v)
        if isinstance(x, tuple) and x[0] == 'e' and len(x[2]) == 1:
            x = strval(self, st, x[2][0])
        return [(st, [x])] if isinstance(x, tuple) and x[0] == 'str' else [(st, None)]
    if t["k"] == "int":
        return [(st, [M.as_int(st, v)])]
    if t["k"] == "adt":
        d = t["def"].split("::")[-1]
        c2 = [i for i, x in M.p.insts.items() if x.get("body") and x["name"].startswith("<") and x["name"].endswith(" as std::fmt::Display>::fmt")
              and x["name"][1:].split(" as ")[0].split("::")[-1] == d]
        if len(c2) != 1:
            return [(st, None)]
        d = c.fr.depth
        buf, f, me = ('O', 'text', d), ('O', 'formatter', d), ('O', 'shown', d)
        st.mem[buf] = ('str', b"")
        st.mem[f] = ('t', (('fn', 'Formatter'), ('r', ('L', buf, ()))))
        st.mem[me] = v
        out = []
        for s, r in M.run_fn(c2[0], [('r', ('L', me, ())), ('r', ('L', f, ()))], st, c.fr, c.sp):
            x = s.mem.get(buf)
            for k in (buf, f, me):
                s.mem.pop(k, None)
            out.append((s, [x] if isinstance(x, tuple) and x[0] == 'str' else None))
        return out
    return [(st, None)]


def deref_display(self, c, st, ty, ref):
    """ref: reference to a value of type ty"""
    if not (isinstance(ref, tuple) and ref[0] == 'r'):
        return display(self, c, st, ty, ref)
    out = []
    for s, x in c.M.load(st, ref[1]):
        out += display(self, c, s, ty, x)
    return out


@prim("core::fmt::rt::Argument::<'_>::new_display", "std::fmt::rt::Argument::<'_>::new_display")
def fmt_arg(self, c):
    t = c.targ(0)
    for k in range(3):
        if t is None:
            t = c.targ(k)
    return [(c.st, ('t', (('fn', 'display', t), c.vs[0])))]


@prim("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex", "core::fmt::rt::Argument::<'_>::new_octal", "core::fmt::rt::Argument::<'_>::new_binary")
def fmt_arg_other(self, c):
    return [(c.st, ('t', (('fn', 'other', 0), c.vs[0])))]


@prim("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_args_str(self, c):
    return [(c.st, ('t', (('fn', 'args'), c.vs[0], ('t', ()))))]


@prim("std::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new")
def fmt_args(self, c):
    return [(c.st, ('t', (('fn', 'args'), c.vs[0], c.vs[1])))]


def template(self, c, st, v):
    """constant bytes of the template"""
    if isinstance(v, tuple) and v[0] == 'r' and v[1][0] == 'C' and not v[1][2].t:
        a, off = v[1][1], v[1][2].k
        ty = c.M.p.types[v[1][3]]
        n = ty.get("len")
        m = c.M.p.mem(a)
        if m is None:
            return None
        b = m[0]
        return b[off:off + n] if n is not None else b[off:]
    if isinstance(v, tuple) and v[0] == 'str' and isinstance(v[1], bytes):
        return v[1]
    return None


def pieces(self, c, st, v):
    """[(st, pieces | None)] of an Arguments value"""
    if not (isinstance(v, tuple) and v[0] == 't' and v[1] and v[1][0] == ('fn', 'args')):
        return [(st, None)]
    _, tm, av = v[1]
    if av == ('t', ()):
        x = strval(self, st, tm)
        return [(st, [x] if isinstance(x, tuple) and x[0] == 'str' else None)]
    b = template(self, c, st, tm)
    if b is None:
        return [(st, None)]
    toks = []
    i = 0
    while i < len(b) and b[i] != 0:
        if b[i] < 0x80:
            toks.append(b[i + 1:i + 1 + b[i]])
            i += 1 + b[i]
        elif b[i] == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            toks.append(b[i + 3:i + 3 + n])
            i += 3 + n
        elif b[i] == 0xC0:
            toks.append(None)
            i += 1
        elif b[i] & 0xC7 == 0xC0 and b[i] & 0x38 == 8:
            # placeholder naming its argument
            toks.append(b[i + 1] | b[i + 2] << 8)
            i += 3
        else:
            return [(st, None)]
    args = None
    for s, x in c.M.load(st, av[1]) if isinstance(av, tuple) and av[0] == 'r' else [(st, av)]:
        if isinstance(x, tuple) and x[0] == 't':
            args = x[1]
        elif isinstance(x, tuple) and x[0] in ('a', 'v', 's'):
            A = s.arr[x[1]]
            args = [g.cl[0][1] for g in A.segs] if all(g.single for g in A.segs) else None
    if args is None:
        return [(st, None)]
    res = [(st, [])]
    k = 0
    for t in toks:
        if isinstance(t, bytes):
            res = [(s, l if l is None else l + [t]) for s, l in res]
            continue
        if t is None:
            t, k = k, k + 1
        else:
            k = t + 1
        if t >= len(args):
            return [(st, None)]
        a = args[t]
        if not (isinstance(a, tuple) and a[0] == 't' and a[1][0][:2] == ('fn', 'display')):
            return [(st, None)]
        nx = []
        for s, l in res:
            for s2, x in deref_display(self, c, s, a[1][0][2], a[1][1]):
                nx.append((s2, None if l is None or x is None else l + x))
        res = nx
    return res


def text(st, ps):
    if ps is None:
        st.add_taint("formatted text")
        ps = [('str', vague(st))]
    return concat(st, ps)


def vague(st):
    n = st.sym(0, 1 << 38)
    aid = ('A', fresh_id())
    st.arr[aid] = Arr('pt', n, (Seg(Lin(0), n, strlib.anychars(st), must=False),))
    st.memo[('vague', aid)] = 2
    return aid


@prim("std::fmt::format", "alloc::fmt::format")
def fmt_format(self, c):
    return [(s, text(s, ps)) for s, ps in pieces(self, c, c.st, c.vs[0])]


@prim("<T as std::string::ToString>::to_string", "<T as std::string::SpecToString>::spec_to_string")
def fmt_to_string(self, c):
    t = c.targ(0)
    if t is None:
        return None
    if c.M.ekind_ty(t) == 'cat' and isinstance(c.vs[0], tuple) and c.vs[0][0] == 'r':
        ds = c.M.load(c.st, c.vs[0][1])
        if all(isinstance(v, tuple) and v[0] == 'd' and v[1].t and s.lower(v[1]) != s.upper(v[1]) for s, v in ds):
            # which text it is does not matter here, and using it would be undecided
            return [(s, ('T', 'text of a category')) for s, v in ds]
    return [(s, text(s, ps)) for s, ps in deref_display(self, c, c.st, t, c.vs[0])]


@prim("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default")
def string_new(self, c):
    return [(c.st, ('str', b""))]


def append(self, c, st, ref, ps):
    """append pieces to the text behind a reference"""
    out = []
    for s, v in c.M.load(st, ref[1]):
        if isinstance(v, tuple) and v[0] == 'r':
            out += append(self, c, s, v, ps)
        elif isinstance(v, tuple) and v[0] == 't' and v[1] and v[1][0] == ('fn', 'Formatter'):
            out += append(self, c, s, v[1][1], ps)
        elif isinstance(v, tuple) and v[0] == 'str':
            out += c.M.store(s, ref[1], concat(s, [v] + ps) if ps is not None else text(s, None))
        else:
            s.add_taint("text buffer")
            out.append(s)
    return out


@prim("std::string::String::push_str", "std::string::String::push", "<std::string::String as std::fmt::Write>::write_str", "<std::string::String as std::fmt::Write>::write_char",
      "core::fmt::Formatter::<'_>::write_str", "std::fmt::Formatter::<'_>::write_str", "std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def text_push(self, c):
    n = c.c["rdef"].rsplit("::", 1)[1]
    ref = c.vs[0]
    if not (isinstance(ref, tuple) and ref[0] == 'r'):
        return None
    x = c.vs[1]
    if n in ("push", "write_char"):
        x = ('str', chr(x.k).encode()) if isinstance(x, Lin) and not x.t else None
    else:
        x = strval(self, c.st, x)
    ps = [x] if isinstance(x, tuple) and x[0] == 'str' else None
    r = UNIT if n.startswith("push") else OK
    return [(s, r) for s in append(self, c, c.st, ref, ps)]


@prim("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::write", "core::fmt::write", "trait:std::fmt::Write::write_fmt", "<std::string::String as std::fmt::Write>::write_fmt")
def text_fmt(self, c):
    ref = c.vs[0]
    if not (isinstance(ref, tuple) and ref[0] == 'r'):
        return None
    out = []
    for s, ps in pieces(self, c, c.st, c.vs[1]):
        out += [(s2, OK) for s2 in append(self, c, s, ref, ps)]
    return out
