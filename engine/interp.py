"""Abstract interpreter over dumped MIR: inlines calls, partitions traces, computes loop fixpoints."""
import sys
import time
from dom import Lin, L, K, INF, HALF, ZERO, fresh_id, names
from state import State, Seg, Arr, UNIT, f_not, show, vsyms, vmap, Ctx
from prog import Prog, CFG
import arrays
import bits
import join as J
import cmem
import contracts

sys.setrecursionlimit(20000)


THR = int(__import__("os").environ.get("THR", "14"))


class Timeout(Exception):
    pass


class Unsupported(Exception):
    pass


DEFAULTS = ("std::iter::Iterator::count", "std::iter::Iterator::nth", "std::iter::DoubleEndedIterator::nth_back")


class Frame:
    __slots__ = ("inst", "body", "cfg", "depth", "ck", "name", "locals", "parent", "callspan", "crate")

    def __init__(self, inst, body, cfg, depth, ck, name, parent, callspan, crate):
        self.inst = inst
        self.body = body
        self.cfg = cfg
        self.depth = depth
        self.ck = ck
        self.name = name
        self.locals = body["locals"]
        self.parent = parent
        self.callspan = callspan
        self.crate = crate


class Machine:
    STATE_LIMIT = 24
    HEAD_LIMIT = 240

    def __init__(self, prog, ref=None, deadline=None, opts=None):
        self.p = prog
        self.ref = ref
        self.alarms = {}
        self.proved = {}
        self.obligations = {}
        self.silent = 0
        self.specs = {}
        self.deadline = deadline
        self.opts = opts or {}
        self.funcs = set()
        self.calls = 0
        self.stmts = 0
        self.loops = {}
        self.unsup = {}
        self.fns_seen = set()
        self.cfgs = {}
        self.cm = cmem.CMem(prog, ref)
        import prims
        self.prims = prims.Prims(self)
        self.debug = self.opts.get('debug', 0)
        self.contracts = {}
        self.checks = 0      # overflow, bounds and similar assertions looked at
        self.contracts_used = set()
        if self.opts.get('contracts'):
            self.contracts = contracts.mapping(prog, self.opts['contracts'])
        self.covered = set()
        self.peak = 0

    # ------------------------------------------------------------ reporting
    def where(self, fr, sp):
        out = []
        f = fr
        while f is not None:
            out.append((f.name, self.p.span(sp) if sp else "?"))
            sp = f.callspan
            f = f.parent
        return out

    def site(self, fr, sp):
        """innermost location in the repository"""
        for nm, w in self.where(fr, sp):
            if w.startswith("crates/"):
                return nm, w
        w = self.where(fr, sp)
        return w[0]

    def alarm(self, kind, msg, fr, sp, st):
        if self.silent:
            return
        nm, w = self.site(fr, sp)
        key = (kind, msg, nm, w)
        a = self.alarms.get(key)
        t = sorted(st.taint)
        if not t and any(k[0] == 'vague' for k in st.memo) and self.prims.vague(st):
            t = ["text known in part"]
        if a is None or (a["taint"] and not t):
            self.alarms[key] = {"kind": kind, "msg": msg, "fn": nm, "at": w, "stack": ["%s (%s)" % x for x in self.where(fr, sp)],
                                "taint": t, "trail": self.trail(st), "n": (a or {}).get("n", 0) + 1,
                                "state": st.dump() if self.opts.get('states') else None}
        else:
            a["n"] += 1

    def trail(self, st):
        out = []
        t = st.trail
        while t is not None and len(out) < 40:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    def unsupported(self, why, fr=None, sp=None):
        w = self.site(fr, sp) if fr is not None else ("?", "?")
        self.unsup[(why, w[1])] = self.unsup.get((why, w[1]), 0) + 1

    def taint(self, st, why, fr=None, sp=None):
        if fr is not None:
            self.unsupported(why, fr, sp)
            why = "%s at %s" % (why, self.site(fr, sp)[1])
        st.add_taint(why)

    # ------------------------------------------------------------ types
    def place_ty(self, fr, place):
        t = fr.locals[place[0]]
        T = self.p.types
        var = None
        for e in place[1]:
            ty = T[t]
            if e == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty["args"]:
                    t = ty["args"][0]
                var = None
            elif e[0] == "f":
                t = e[2]
                var = None
            elif e[0] in ("i", "c"):
                t = ty["e"]
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "o":
                t = e[1]
        return t

    def op_ty(self, fr, op):
        if op["k"] in "pm":
            return self.place_ty(fr, op["p"])
        return op.get("t")

    def width(self, t):
        ty = self.p.types[t]
        if ty["k"] == "int":
            return ty["w"]
        if ty["k"] == "char":
            return 32
        if ty["k"] == "bool":
            return 8
        return 64

    # ------------------------------------------------------------ values
    def as_int(self, st, v, t=None):
        """Lin for a value used as integer (fresh unknown when needed)"""
        if isinstance(v, Lin):
            return v
        if v is True:
            return Lin(1)
        if v is False:
            return Lin(0)
        if isinstance(v, tuple) and v[0] == 'd':
            return v[1]
        r = self.p.int_range(t) if t is not None else None
        if isinstance(v, tuple) and v[0] == 'T':
            st.add_taint(v[1])
        elif isinstance(v, tuple) and v[0] != 'B':
            st.add_taint("integer from %s" % (v[0],))
        if isinstance(v, tuple) and v[0] == 'B':
            return st.sym(0, 1)
        if r is None:
            return st.sym(0, (1 << 64) - 1 if False else (1 << 56))
        return self.range_sym(st, r)

    def range_sym(self, st, r):
        lo, hi = r
        return st.sym(lo if lo > -HALF else None, hi if hi < HALF else None)

    def as_bool(self, st, v):
        """formula"""
        if v is True or v is False:
            return v
        if isinstance(v, tuple):
            if v[0] == 'B':
                return v[1]
            if v[0] == 'T':
                st.add_taint(v[1])
                return ('u', fresh_id())
        if isinstance(v, Lin):
            return ('ne', v)
        st.add_taint("bool from %r" % (v[0],))
        return ('u', fresh_id())

    @staticmethod
    def mkbool(f):
        if f is True or f is False:
            return f
        return ('B', f)

    # ------------------------------------------------------------ places
    def tget(self, st, v, path):
        for i in path:
            if not isinstance(v, tuple):
                return ('T', "field of scalar")
            k = v[0]
            if k == 't':
                if i < len(v[1]):
                    v = v[1][i]
                else:
                    return ('T', "field index")
            elif k == 'e':
                if i < len(v[2]):
                    v = v[2][i]
                else:
                    return ('T', "variant field")
            elif k == 'T':
                return v
            elif k == 'uw':
                v = v[2]
            elif k in ('r', 's', 'v', 'str', 'fn'):
                continue      # wrappers (Box/Unique/NonNull/String internals)
            else:
                return ('T', "field of %s" % k)
        return v

    def tset(self, v, path, nv):
        if not path:
            return nv
        i = path[0]
        if isinstance(v, tuple):
            if v[0] == 't':
                l = list(v[1])
                if i < len(l):
                    l[i] = self.tset(l[i], path[1:], nv)
                    return ('t', tuple(l))
            elif v[0] == 'e':
                l = list(v[2])
                if i < len(l):
                    l[i] = self.tset(l[i], path[1:], nv)
                    return ('e', v[1], tuple(l))
            elif v[0] == 'T':
                if v[1] == 'uninit':
                    return ('uw', path, nv)
                return v
        return ('T', "store into %s" % (v[0] if isinstance(v, tuple) else type(v).__name__))

    def resolve(self, fr, st, place):
        """[(state, loc)]"""
        states = [(st, ('L', (fr.depth, place[0]), ()))]
        for e in place[1]:
            nxt = []
            for s, loc in states:
                if e == "*":
                    for s2, v in self.load(s, loc):
                        nxt.append((s2, self.deref(s2, v)))
                    continue
                k = e[0]
                if k == "f":
                    nxt.append((s, self.field(loc, e[1], e[2])))
                elif k == "d":
                    nxt.append((s, ('D', loc, e[1]) if loc[0] == 'C' else loc))
                elif k == "i":
                    iv = s.mem.get((fr.depth, e[1]))
                    if not isinstance(iv, Lin):
                        iv = self.as_int(s, iv if iv is not None else ('T', 'index'), fr.locals[e[1]])
                    nxt.extend(self.index(s, loc, iv))
                elif k == "c":
                    off, mn, fe = e[1], e[2], e[3]
                    if fe:
                        for s2, n in self.length(s, loc):
                            nxt.extend(self.index(s2, loc, n.addk(-off)))
                    else:
                        nxt.extend(self.index(s, loc, Lin(off)))
                elif k == "s":
                    frm, to, fe = e[1], e[2], e[3]
                    for s2, sl in self.loc_slice(s, loc):
                        if sl is None:
                            nxt.append((s2, ('V', ('T', 'subslice'), ())))
                            continue
                        lo, hi = sl[2], sl[3]
                        nl = lo.addk(frm)
                        nh = hi.addk(-to) if fe else lo.addk(to)
                        nxt.append((s2, ('V', ('s', sl[1], nl, nh), ())))
                else:
                    nxt.append((s, loc))
            states = nxt
        return states

    def deref(self, st, v):
        if isinstance(v, tuple):
            if v[0] == 'r':
                return v[1]
            if v[0] in ('s', 'str', 'cs', 'T', 'dyn'):
                return ('V', v, ())
            if v[0] == 't' and len(v[1]) == 1:
                return self.deref(st, v[1][0])
            if v[0] == 't' and len(v[1]) == 2:      # Box<T, A> as struct
                return self.deref(st, v[1][0])
        return ('V', ('T', 'deref of %s' % (v[0] if isinstance(v, tuple) else 'scalar')), ())

    def field(self, loc, i, t):
        k = loc[0]
        if k == 'L':
            return ('L', loc[1], loc[2] + (i,))
        if k == 'A':
            return ('A', loc[1], loc[2], loc[3] + (i,))
        if k == 'V':
            return ('V', loc[1], loc[2] + (i,))
        if k == 'C':
            ty = self.p.types[loc[3]]
            off = self.cm.field_off(loc[3], i, None)
            return ('C', loc[1], loc[2].addk(off), t)
        if k == 'D':
            off = self.cm.field_off(loc[1][3], i, loc[2])
            return ('C', loc[1][1], loc[1][2].addk(off), t)
        return ('V', ('T', 'field of location'), ())

    def index(self, st, loc, iv):
        """element location: [(state, loc)] (bounds were checked by the program)"""
        k = loc[0]
        if k == 'C':
            ty = self.p.types[loc[3]]
            if ty["k"] == "array":
                return [(st, ('C', loc[1], loc[2].add(iv.scale(ty["stride"])), ty["e"]))]
            return [(st, ('V', ('T', 'const index'), ()))]
        out = []
        for s, v in self.load(st, loc):
            if v[0] == 's':
                out.append((s, ('A', v[1], v[2].add(iv), ())))
            elif v[0] == 'a':
                out.append((s, ('A', v[1], iv, ())))
            elif v[0] == 'cs':
                if iv.t and self.ekind_ty(v[4]) == 'iv':
                    for s2, sl in self.cm.as_array(self, s, v):
                        out.append((s2, ('A', sl[1], sl[2].add(iv), ()) if sl is not None else ('V', ('T', 'const slice'), ())))
                    continue
                sz = self.p.types[v[4]]["size"]
                out.append((s, ('C', v[1], v[2].add(iv.scale(sz)), v[4])))
            elif v[0] == 'cv':
                ty = self.p.types[v[3]]
                out.append((s, ('C', v[1], v[2].add(iv.scale(ty["stride"])), ty["e"])))
            elif v[0] == 't':
                n = len(v[1])
                if not iv.t:
                    if 0 <= iv.k < n and loc[0] in ('L', 'A', 'V'):
                        out.append((s, loc[:-1] + (loc[-1] + (iv.k,),)))
                    continue
                lo, hi = max(0, s.lower(iv)), min(n - 1, s.upper(iv))
                for c in range(int(lo), int(hi) + 1):
                    for s2 in s.copy().assume(('eq', iv.addk(-c))):
                        out.append((s2, loc[:-1] + (loc[-1] + (c,),)))
            elif v[0] == 'str' and not iv.t and isinstance(v[1], bytes) and 0 <= iv.k < len(v[1]):
                out.append((s, ('V', Lin(v[1][iv.k]), ())))
            else:
                out.append((s, ('V', ('T', 'index of %s' % v[0]), ())))
        return out

    def loc_slice(self, st, loc):
        """view of an array/slice place as ('s', aid, lo, hi): [(state, slice|None)]"""
        out = []
        for s, v in self.load(st, loc) if loc[0] != 'C' else [(st, None)]:
            if loc[0] == 'C':
                ty = self.p.types[loc[3]]
                if ty["k"] == "array":
                    v = ('cs', loc[1], loc[2], Lin(ty["len"]), ty["e"])
                else:
                    out.append((s, None))
                    continue
            for s2, sl in self.to_slice(s, v, loc):
                out.append((s2, sl))
        return out

    def to_slice(self, st, v, loc=None):
        """slice-like value -> ('s', aid, lo, hi)"""
        if isinstance(v, tuple):
            if v[0] == 's':
                return [(st, v)]
            if v[0] == 'cs':
                return self.cm.as_array(self, st, v)
            if v[0] in ('v', 'a'):
                return [(st, ('s', v[1], Lin(0), st.arr[v[1]].n))]
            if v[0] == 't':
                # small fixed array: copy into an array object (read-only view)
                aid = self.new_array_from(st, v[1])
                return [(st, ('s', aid, Lin(0), Lin(len(v[1]))))]
            if v[0] == 'r':
                return self.loc_slice(st, v[1])
        return [(st, None)]

    def ekind(self, v):
        if isinstance(v, Lin):
            return 'pt'
        if isinstance(v, tuple):
            if v[0] == 't' and len(v[1]) == 2 and isinstance(v[1][0], Lin) and isinstance(v[1][1], Lin):
                return 'iv'
            if v[0] == 'd':
                return 'cat'
        return 'o'

    def ekind_ty(self, t):
        ty = self.p.types[t]
        if ty["k"] == "tuple" and len(ty["f"]) == 2 and all(self.p.types[x]["k"] in ("int", "char") for x in ty["f"]):
            return 'iv'
        if ty["k"] == "int" and ty["w"] <= 32 or ty["k"] == "char":
            return 'pt'
        if ty["k"] == "adt" and ty["def"].endswith("UnicodeCategory"):
            return 'cat'
        return 'o'

    def new_array_from(self, st, vals, ek=None):
        aid = ('A', fresh_id())
        ek = ek or (self.ekind(vals[0]) if vals else 'o')
        segs = []
        for i, v in enumerate(vals):
            segs.append(Seg(Lin(i), Lin(i + 1), (('?', v, None),), single=True))
        st.arr[aid] = Arr(ek, Lin(len(vals)), tuple(segs))
        return aid

    def length(self, st, loc):
        if loc[0] == 'C':
            ty = self.p.types[loc[3]]
            return [(st, Lin(ty["len"]))]
        out = []
        for s, v in self.load(st, loc):
            out.append((s, self.vlen(s, v)))
        return out

    def vlen(self, st, v):
        if isinstance(v, tuple):
            if v[0] == 's':
                return v[3].sub(v[2])
            if v[0] == 'cs':
                return v[3]
            if v[0] in ('v', 'a'):
                return st.arr[v[1]].n
            if v[0] == 't':
                return Lin(len(v[1]))
            if v[0] == 'r':
                r = self.length(st, v[1])
                return r[0][1]
            if v[0] == 'str':
                return self.prims.str_blen(st, v)
        st.add_taint("length of %s" % (v[0] if isinstance(v, tuple) else v))
        return st.sym(0, 1 << 40)

    def load(self, st, loc):
        k = loc[0]
        if k == 'L':
            v = st.mem.get(loc[1])
            if v is None:
                return [(st, ('T', 'uninitialised local'))]
            if loc[2]:
                v = self.tget(st, v, loc[2])
            return [(st, v)]
        if k == 'A':
            out = []
            for s, i in arrays.materialize(st, loc[1], loc[2]):
                v = s.arr[loc[1]].segs[i].cl[0][1]
                out.append((s, self.tget(s, v, loc[3]) if loc[3] else v))
            return out
        if k == 'C':
            return self.cm.read(self, st, loc)
        if k == 'V':
            return [(st, self.tget(st, loc[1], loc[2]) if len(loc) > 2 and loc[2] else loc[1])]
        if k == 'D':
            return self.load(st, loc[1])
        return [(st, ('T', 'load'))]

    def store(self, st, loc, v):
        k = loc[0]
        if k == 'L':
            if loc[2]:
                old = st.mem.get(loc[1], ('T', 'uninit'))
                st.mem[loc[1]] = self.tset(old, loc[2], v)
            else:
                st.mem[loc[1]] = v
            return [st]
        if k == 'A':
            out = []
            for s, i in arrays.materialize(st, loc[1], loc[2]):
                a = s.arr[loc[1]]
                g = a.segs[i]
                nv = self.tset(g.cl[0][1], loc[3], v)
                segs = list(a.segs)
                segs[i] = Seg(g.s, g.e, (('?', nv, None),), single=True)
                s.arr[loc[1]] = a.rep(segs=tuple(segs))
                out.append(s)
            return out
        if k == 'V' and isinstance(loc[1], tuple) and loc[1][0] == 'T':
            st.add_taint("store through unknown pointer: " + str(loc[1][1]))
            return [st]
        st.add_taint("store to %s" % k)
        return [st]

    # ------------------------------------------------------------ operands / rvalues
    def ev(self, fr, st, op):
        k = op["k"]
        if k == "p" or k == "m":
            p = op["p"]
            if not p[1]:
                v = st.mem.get((fr.depth, p[0]))
                return [(st, v if v is not None else ('T', 'uninit'))]
            out = []
            for s, loc in self.resolve(fr, st, p):
                out.extend(self.load(s, loc))
            return out
        if k == "c":
            return [(st, self.cm.const(op["t"], op["a"]))]
        if k == "z":
            return [(st, self.cm.zst(op["t"]))]
        if k == "rt":
            return [(st, self.opts.get('rt', {}).get(op["n"], False))]
        return [(st, ('T', 'operand'))]

    def ev2(self, fr, st, a, b):
        out = []
        for s, x in self.ev(fr, st, a):
            for s2, y in self.ev(fr, s, b):
                out.append((s2, x, y))
        return out

    def evs(self, fr, st, ops):
        states = [(st, [])]
        for o in ops:
            nxt = []
            for s, l in states:
                for s2, v in self.ev(fr, s, o):
                    nxt.append((s2, l + [v]))
            states = nxt
        return states

    def rvalue(self, fr, st, r, dty, sp):
        k = r[0]
        if k == "use":
            return self.ev(fr, st, r[1])
        if k == "ref":
            pl = r[1]
            # reborrow of a deref
            if pl[1] and pl[1][-1] == "*":
                out = []
                for s, loc in self.resolve(fr, st, [pl[0], pl[1][:-1]]):
                    for s2, v in self.load(s, loc):
                        if isinstance(v, tuple) and v[0] in ('r', 's', 'str', 'cs', 'T', 'dyn'):
                            out.append((s2, v))
                        else:
                            out.append((s2, self.addr(s2, self.deref(s2, v))))
                return out
            return [(s, self.addr(s, loc)) for s, loc in self.resolve(fr, st, pl)]
        if k == "agg":
            kind = r[1]
            out = []
            for s, vs in self.evs(fr, st, r[2]):
                out.append((s, self.aggregate(s, kind, vs)))
            return out
        if k == "bin":
            t = self.op_ty(fr, r[2])
            out = []
            for s, x, y in self.ev2(fr, st, r[2], r[3]):
                out.extend(self.binop(fr, s, r[1], x, y, t, sp))
            return out
        if k == "chk":
            t = self.op_ty(fr, r[2])
            out = []
            for s, x, y in self.ev2(fr, st, r[2], r[3]):
                out.extend(self.chkop(fr, s, r[1], x, y, t, sp))
            return out
        if k == "un":
            t = self.op_ty(fr, r[2])
            out = []
            for s, x in self.ev(fr, st, r[2]):
                out.extend(self.unop(fr, s, r[1], x, t, sp))
            return out
        if k == "cast":
            out = []
            for s, x in self.ev(fr, st, r[2]):
                out.extend(self.cast(fr, s, r[1], x, self.op_ty(fr, r[2]), r[3], r[4], sp))
            return out
        if k == "disc":
            out = []
            t = self.place_ty(fr, r[1])
            for s, loc in self.resolve(fr, st, r[1]):
                for s2, v in self.load(s, loc):
                    out.append((s2, self.discr(s2, v, t)))
            return out
        if k == "len":
            out = []
            for s, loc in self.resolve(fr, st, r[1]):
                out.extend(self.length(s, loc))
            return out
        if k == "rep":
            out = []
            for s, v in self.ev(fr, st, r[1]):
                n = r[2]
                if n <= 64:
                    out.append((s, ('t', (v,) * n)))
                else:
                    aid = ('A', fresh_id())
                    ek = self.ekind(v)
                    gid = fresh_id()
                    if ek == 'o':
                        t, _ = arrays.fresh_template(s, v, gid)
                        s.arr[aid] = Arr(ek, Lin(n), (Seg(Lin(0), Lin(n), (('U', t, gid),)),))
                        out.append((s, ('a', aid)))
                    else:
                        for s2, c in arrays.classify_value(s, ek, v):
                            t, _ = arrays.fresh_template(s2, v, gid)
                            s2.arr[aid] = Arr(ek, Lin(n), (Seg(Lin(0), Lin(n), ((c, t, gid),), must=c == 'C'),))
                            out.append((s2, ('a', aid)))
            return out
        self.taint(st, "rvalue %s" % k, fr, sp)
        return [(st, ('T', "rvalue %s" % k))]

    def addr(self, st, loc):
        if loc[0] == 'V':
            v = self.tget(st, loc[1], loc[2]) if len(loc) > 2 and loc[2] else loc[1]
            if isinstance(v, tuple) and v[0] in ('s', 'str', 'cs', 'T', 'dyn'):
                return v
            return ('r', ('V', v))
        if loc[0] == 'L' and loc[1][0] != 'H':
            # collapse references to strings / boxed values held in locals is not needed
            pass
        return ('r', loc)

    def aggregate(self, st, kind, vs):
        k = kind[0]
        if k == "array":
            if len(vs) <= 64:
                return ('t', tuple(vs))
            return ('a', self.new_array_from(st, vs, self.ekind_ty(kind[1])))
        if k in ("tuple", "closure"):
            if k == "closure":
                return ('t', tuple(vs))
            return ('t', tuple(vs))
        if k == "adt":
            t, var, fld = kind[1], kind[2], kind[3]
            ty = self.p.types[t]
            if ty["a"] == "enum":
                if self.p.is_unit_enum(t):
                    return ('d', Lin(var))
                return ('e', var, tuple(vs))
            if ty["a"] == "union":
                n = len(ty["v"][0]["f"])
                l = [('T', 'union')] * n
                if fld is not None and fld < n:
                    l[fld] = vs[0]
                return ('t', tuple(l))
            return ('t', tuple(vs))
        if k == "rawptr":
            # (data ptr, metadata)
            if len(vs) == 2 and isinstance(vs[1], Lin) and isinstance(vs[0], tuple) and vs[0][0] in ('r',) and vs[0][1][0] == 'A' and vs[0][1][3] == ():
                loc = vs[0][1]
                return ('s', loc[1], loc[2], loc[2].add(vs[1]))
            if vs and isinstance(vs[-1], tuple) and vs[-1] == UNIT:
                return vs[0]
            return ('T', 'raw pointer')
        return ('T', 'aggregate %s' % k)

    def discr(self, st, v, t):
        ty = self.p.types[t]
        if isinstance(v, tuple):
            if v in (('t', ()), ('T', 'uninitialised local')) and ty.get("a") == "enum" and ty.get("size") == 0:
                # the only inhabited variant of a zero-sized enum
                c = [x["d"] for x in ty["v"] if not x["f"]]
                if len(c) == 1:
                    return Lin(c[0])
            if v[0] == 'e':
                return Lin(ty["v"][v[1]]["d"])
            if v[0] == 'd':
                vs = ty.get("v")
                if vs and all(x["d"] == i for i, x in enumerate(vs)):
                    return v[1]
                if not v[1].t and vs:
                    return Lin(vs[v[1].k]["d"])
                # non-identity discriminants
                d0 = vs[0]["d"]
                if all(x["d"] == d0 + i for i, x in enumerate(vs)):
                    return v[1].addk(d0)
            if v[0] == 'T':
                st.add_taint(v[1])
        elif isinstance(v, bool):
            return Lin(int(v))
        elif isinstance(v, Lin):
            return v
        return ('T', 'discriminant')

    # ------------------------------------------------------------ operators
    def cmp_f(self, op, x, y):
        d = x.sub(y)
        if op == "Lt":
            return ('le', d.addk(1))
        if op == "Le":
            return ('le', d)
        if op == "Gt":
            return ('le', d.scale(-1).addk(1))
        if op == "Ge":
            return ('le', d.scale(-1))
        if op == "Eq":
            return ('eq', d)
        if op == "Ne":
            return ('ne', d)

    def binop(self, fr, st, op, x, y, t, sp):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return self.compare(fr, st, op, x, y, t)
        ty = self.p.types[t] if t is not None else {"k": "?"}
        if ty["k"] == "bool" or isinstance(x, bool) or (isinstance(x, tuple) and x[0] == 'B'):
            f, g = self.as_bool(st, x), self.as_bool(st, y)
            if op == "BitAnd":
                if f is False or g is False:
                    return [(st, False)]
                if f is True:
                    return [(st, self.mkbool(g))]
                if g is True:
                    return [(st, self.mkbool(f))]
                return [(st, ('B', ('and', f, g)))]
            if op == "BitOr":
                if f is True or g is True:
                    return [(st, True)]
                if f is False:
                    return [(st, self.mkbool(g))]
                if g is False:
                    return [(st, self.mkbool(f))]
                return [(st, ('B', ('or', f, g)))]
            if op == "BitXor":
                if f is True or f is False:
                    return [(st, self.mkbool(f_not(g) if f else g))]
                if g is True or g is False:
                    return [(st, self.mkbool(f_not(f) if g else f))]
                out = []
                a, b = st.split(f)
                out += [(s, self.mkbool(f_not(g))) for s in a]
                out += [(s, self.mkbool(g)) for s in b]
                return out
        if op == "Offset":
            if isinstance(x, tuple) and x[0] == 'r' and x[1][0] == 'A' and isinstance(y, Lin):
                loc = x[1]
                return [(st, ('r', ('A', loc[1], loc[2].add(y), loc[3])))]
            return [(st, ('T', 'pointer offset'))]
        if op == "Cmp":
            xi, yi = self.as_int(st, x, t), self.as_int(st, y, t)
            out = []
            for s, sg in bits._triple(st, xi, yi):
                out.append((s, ('d', Lin(sg + 1))))
            return out
        x, y = self.as_int(st, x, t), self.as_int(st, y, t)
        w = ty.get("w", 64 if ty["k"] != "char" else 32)
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, x.add(y), t)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, bits.below_bit(st, x.sub(y), w), t)
        if op in ("Mul", "MulUnchecked"):
            return [(s2, q) for s, r in self.mul(st, x, y, t) for s2, q in self.wrap(s, r, t)]
        if op == "Div":
            return [(s, q) for s, q, r in self.divrem(fr, st, x, y, t, sp)]
        if op == "Rem":
            return [(s, r) for s, q, r in self.divrem(fr, st, x, y, t, sp)]
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if ty.get("s"):
                if not x.t and not y.t:
                    import operator
                    c = {"BitAnd": x.k & y.k, "BitOr": x.k | y.k, "BitXor": x.k ^ y.k}.get(op)
                    if c is None and 0 <= y.k < w:
                        c = x.k << y.k if op.startswith("Shl") else x.k >> y.k
                    if c is not None:
                        return self.wrap(st, Lin(c), t)
                if op in ("Shl", "Shr") and st.lower(x) >= 0:
                    pass
                else:
                    self.taint(st, "signed bit operation", fr, sp)
                    return [(st, self.range_sym(st, self.p.int_range(t)))]
            if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
                # shift amount is taken modulo the width
                if st.lower(y) < 0 or st.upper(y) >= w:
                    if not y.t:
                        y = Lin(y.k % w)
                    else:
                        ins = st.assume_le(y.addk(1 - w)) and st.assume_le(y.scale(-1))
                        if not ins:
                            return []
                        self.taint(st, "wrapping shift", fr, sp)
                if op.startswith("Shl"):
                    return bits.op_shl(st, x, y, w)
                return bits.op_shr(st, x, y, w)
            f = {"BitAnd": bits.op_and, "BitOr": bits.op_or, "BitXor": bits.op_xor}[op]
            return f(st, x, y, w)
        self.taint(st, "operator %s" % op, fr, sp)
        return [(st, self.range_sym(st, self.p.int_range(t) or (0, 1 << 56)))]

    def wrap(self, st, r, t):
        rg = self.p.int_range(t)
        if rg is None:
            return [(st, r)]
        lo, hi = rg
        if not r.t:
            m = hi - lo + 1
            return [(st, Lin((r.k - lo) % m + lo))]
        if hi < HALF or lo == 0:
            l, u = st.lower(r), st.upper(r)
            if l >= lo and (u <= hi or (hi >= HALF and u < HALF)):
                return [(st, r)]
            out = []
            m = hi - lo + 1
            cur = [st]
            under = []
            if l < lo:
                ok = []
                for s in cur:
                    a, b = s.split(('le', Lin(lo).sub(r)))
                    ok += a
                    under += b
                cur = ok
            over = []
            if u > hi and hi < HALF:
                ok = []
                for s in cur:
                    a, b = s.split(('le', r.addk(-hi)))
                    ok += a
                    over += b
                cur = ok
            out += [(s, r) for s in cur]
            if m < HALF:
                out += [(s, r.addk(m)) for s in under]
                out += [(s, r.addk(-m)) for s in over]
            else:
                for s in under + over:
                    s.add_taint("64-bit wrap-around")
                    out.append((s, s.sym(0, None)))
            return out
        return [(st, r)]

    def mul(self, st, x, y, t):
        if not x.t:
            x, y = y, x
        if not y.t:
            return [(st, x.scale(y.k))]
        lx, ux, ly, uy = st.lower(x), st.upper(x), st.lower(y), st.upper(y)
        # few values: enumerate
        for a, b, la, ua in ((x, y, lx, ux), (y, x, ly, uy)):
            if ua - la <= 8:
                out = []
                for c in range(int(la), int(ua) + 1):
                    for s in st.copy().assume(('eq', a.addk(-c))):
                        out.append((s, b.scale(c)))
                return out
        c = [p * q for p in (lx, ux) for q in (ly, uy)]
        r = st.sym(max(min(c), -HALF + 1), min(max(c), HALF - 1))
        st.add_taint("non-linear product")
        return [(st, r)]

    def divrem(self, fr, st, x, y, t, sp):
        """[(state, quotient, remainder)]"""
        if not y.t and y.k > 0:
            c = y.k
            if not x.t:
                q = abs(x.k) // c
                q = q if x.k >= 0 else -q
                return [(st, Lin(q), Lin(x.k - q * c))]
            lo, hi = st.lower(x), st.upper(x)
            if lo >= 0:
                # exact cases through a known multiple
                if hi < HALF and hi // c - lo // c <= 16:
                    out = []
                    for q in range(int(lo // c), int(hi // c) + 1):
                        s = st.copy()
                        if s.assume_le(Lin(q * c).sub(x)) and s.assume_le(x.addk(-(q * c + c - 1))):
                            out.append((s, Lin(q), x.addk(-q * c)))
                    return out
                key = ('div', x, c)
                m = st.memo.get(key)
                if m is None:
                    q = st.sym(max(0, lo // c), hi // c if hi < HALF else None)
                    r = x.sub(q.scale(c))
                    st.memo[key] = q
                    st.assume_le(r.scale(-1))
                    st.assume_le(r.addk(1 - c))
                    m = q
                rr = st.sym(0, c - 1)
                e = x.sub(m.scale(c)).sub(rr)
                st.assume_le(e)
                st.assume_le(e.scale(-1))
                return [(st, m, rr)]
        self.taint(st, "division", fr, sp)
        return [(st, st.sym(0, None), st.sym(0, None))]

    def chkop(self, fr, st, op, x, y, t, sp):
        x, y = self.as_int(st, x, t), self.as_int(st, y, t)
        if op == "Add":
            rs = [(st, x.add(y))]
        elif op == "Sub":
            rs = [(st, bits.below_bit(st, x.sub(y), self.p.types[t].get("w", 64)))]
        else:
            rs = self.mul(st, x, y, t)
        rg = self.p.int_range(t)
        out = []
        for s, r in rs:
            if rg is None:
                out.append((s, ('t', (r, False))))
                continue
            lo, hi = rg
            if not r.t:
                ov = not (lo <= r.k <= hi)
                m = hi - lo + 1
                out.append((s, ('t', (Lin((r.k - lo) % m + lo), ov))))
                continue
            if hi >= HALF:
                # 64-bit: only the lower end can be reached by code that counts or measures memory
                f = ('le', r.addk(1)) if lo == 0 else False
            else:
                f = ('or', ('le', r.addk(1 - lo)), ('le', Lin(hi + 1).sub(r)))
                if s.lower(r) >= lo:
                    f = ('le', Lin(hi + 1).sub(r))
                elif s.upper(r) <= hi:
                    f = ('le', r.addk(1 - lo))
            b = s.fact(f)
            out.append((s, ('t', (r, self.mkbool(f if b is None else b)))))
        return out

    def compare(self, fr, st, op, x, y, t):
        if isinstance(x, tuple) and x[0] == 'T' or isinstance(y, tuple) and y[0] == 'T':
            for v in (x, y):
                if isinstance(v, tuple) and v[0] == 'T':
                    st.add_taint(v[1])
            return [(st, ('B', ('u', fresh_id())))]
        if x is UNIT or y is UNIT:
            return [(st, op in ("Eq", "Le", "Ge"))]
        bx = isinstance(x, bool) or (isinstance(x, tuple) and x[0] == 'B')
        by = isinstance(y, bool) or (isinstance(y, tuple) and y[0] == 'B')
        if bx and by and op in ("Eq", "Ne"):
            f, g = self.as_bool(st, x), self.as_bool(st, y)
            if f is True or f is False:
                r = g if f else f_not(g)
                return [(st, self.mkbool(r if op == "Eq" else f_not(r)))]
            if g is True or g is False:
                r = f if g else f_not(f)
                return [(st, self.mkbool(r if op == "Eq" else f_not(r)))]
            a, b = st.split(f)
            out = [(s, self.mkbool(g if op == "Eq" else f_not(g))) for s in a]
            out += [(s, self.mkbool(f_not(g) if op == "Eq" else g)) for s in b]
            return out
        for v in (x, y):
            if isinstance(v, tuple) and v[0] in ('r', 's', 'v', 'str', 'fn', 't', 'e'):
                if x == y and v[0] in ('r', 'fn') and op in ("Eq", "Ne"):
                    return [(st, op == "Eq")]
                st.add_taint("comparison of %s" % v[0])
                return [(st, ('B', ('u', fresh_id())))]
        a, b = self.as_int(st, x, t), self.as_int(st, y, t)
        f = self.cmp_f(op, a, b)
        r = st.fact(f)
        return [(st, self.mkbool(f if r is None else r))]

    def unop(self, fr, st, op, x, t, sp):
        ty = self.p.types[t] if t is not None else {"k": "?"}
        if op == "Not":
            if ty["k"] == "bool" or isinstance(x, bool) or (isinstance(x, tuple) and x[0] == 'B'):
                return [(st, self.mkbool(f_not(self.as_bool(st, x))))]
            x = self.as_int(st, x, t)
            if ty.get("s"):
                return [(st, x.scale(-1).addk(-1))]
            return bits.op_not(st, x, ty["w"])
        if op == "Neg":
            return self.wrap(st, self.as_int(st, x, t).scale(-1), t)
        if op == "PtrMetadata":
            if isinstance(x, tuple):
                if x[0] in ('s', 'cs', 'str'):
                    return [(st, self.vlen(st, x))]
                if x[0] == 'r':
                    return [(st, UNIT)]
                if x[0] == 'T':
                    st.add_taint(x[1])
                    return [(st, st.sym(0, 1 << 40))]
        self.taint(st, "operator %s" % op, fr, sp)
        return [(st, ('T', op))]

    def cast(self, fr, st, kind, x, ft, tt, inst, sp):
        ty = self.p.types[tt]
        if kind in ("IntToInt",):
            if isinstance(x, tuple) and x[0] == 'd':
                x = self.discr(st, x, ft)
            if isinstance(x, tuple) and x[0] == 'B':
                a, b = st.split(x[1])
                return [(s, Lin(1)) for s in a] + [(s, Lin(0)) for s in b]
            x = self.as_int(st, x, ft)
            rg = self.p.int_range(tt)
            if rg is None:
                return [(st, x)]
            lo, hi = rg
            if not x.t:
                m = hi - lo + 1
                return [(st, Lin((x.k - lo) % m + lo))]
            fw, tw = self.width(ft), self.width(tt)
            if st.lower(x) >= lo and (hi >= HALF or st.upper(x) <= hi):
                if fw != tw and x.sym() in st.info:
                    i = st.info[x.sym()]
                    if i.get('obs') and fw != tw:
                        # tracked positions are per width: keep a same-valued symbol
                        d = {k: v for k, v in i.items() if k != 'obs'}
                        o = {p: v for p, v in i['obs'].items() if any(q == p for q in bits.trackers(st, tw))}
                        if len(o) != len(i['obs']):
                            r = st.sym()
                            st.assume_le(r.sub(x))
                            st.assume_le(x.sub(r))
                            res = [(st, {})]
                            for p in bits.trackers(st, tw):
                                res = [(s3, dict(o2, **({} if b is None else {}))) if b is None else (s3, {**o2, p: b}) for s2, o2 in res for s3, b in bits.getbit(s2, x, fw, p)]
                            out = []
                            for s2, o2 in res:
                                dd = dict(d)
                                dd['obs'] = o2
                                s2.info[r.sym()] = dd
                                out.append((s2, r))
                            return out
                return [(st, x)]
            # truncation
            if bits.has_obs(st, x, fw) and lo == 0:
                res = [(st, {})]
                for p in bits.trackers(st, tw):
                    res = [(s3, o2 if b is None else {**o2, p: b}) for s2, o2 in res for s3, b in bits.getbit(s2, x, fw, p)]
                return [(s, bits.mk(s, tw, {'obs': o})) for s, o in res]
            if fw == tw or hi < HALF:
                # reinterpret / wrap
                m = hi - lo + 1
                l, u = st.lower(x), st.upper(x)
                if l > -HALF and u < HALF and (u - lo) // m - (l - lo) // m <= 4:
                    out = []
                    for q in range(int((l - lo) // m), int((u - lo) // m) + 1):
                        s = st.copy()
                        r = x.addk(-q * m)
                        if s.assume_le(Lin(lo).sub(r)) and s.assume_le(r.addk(-hi)):
                            out.append((s, r))
                    return out
                if l > -HALF:
                    # the first two turns exactly, the rest not
                    out = []
                    q0 = int((l - lo) // m)
                    for q in (q0, q0 + 1):
                        s = st.copy()
                        r = x.addk(-q * m)
                        if s.assume_le(Lin(lo).sub(r)) and s.assume_le(r.addk(-hi)):
                            out.append((s, r))
                    s = st.copy()
                    if s.assume_le(Lin(lo + (q0 + 2) * m).sub(x)):
                        self.taint(s, "truncating cast", fr, sp)
                        out.append((s, self.range_sym(s, rg)))
                    return out
            self.taint(st, "truncating cast", fr, sp)
            return [(st, self.range_sym(st, rg))]
        if kind.startswith("pc:"):
            sub = kind[3:]
            if sub == "Unsize" or sub.startswith("Unsize"):
                et = ty.get("e")
                if et is not None and self.p.types[et]["k"] == "slice":
                    if isinstance(x, tuple) and x[0] == 'r':
                        loc = x[1]
                        if loc[0] == 'C':
                            at = self.p.types[loc[3]]
                            if at["k"] == "array":
                                return [(st, ('cs', loc[1], loc[2], Lin(at["len"]), at["e"]))]
                        out = []
                        for s, v in self.load(st, loc):
                            if v[0] == 't':
                                out.append((s, ('ts', loc, Lin(0), Lin(len(v[1])))) if False else (s, self.array_ref(s, loc, v)))
                            elif v[0] == 'a':
                                out.append((s, ('s', v[1], Lin(0), s.arr[v[1]].n)))
                            else:
                                out.append((s, ('T', 'unsize')))
                        return out
                if et is not None and self.p.types[et]["k"] == "dyn":
                    return [(st, ('dyn', x, self.op_pointee(ft)))]
                if isinstance(x, tuple) and x[0] == 'r':
                    # Box<[T;N]> -> Box<[T]>
                    out = []
                    for s, v in self.load(st, x[1]):
                        if v[0] == 't':
                            out.append((s, ('s', self.new_array_from(s, v[1]), Lin(0), Lin(len(v[1])))))
                        else:
                            out.append((s, ('T', 'unsize')))
                    return out
                return [(st, x)]
            if inst is not None:
                return [(st, ('fn', inst))]
            return [(st, x)]
        if kind == "Transmute" or kind == "PtrToPtr" or kind == "BoxDerefTransmute":
            if ty["k"] in ("ptr", "ref") and isinstance(x, tuple):
                return [(st, x)]
            if isinstance(x, Lin):
                if ty["k"] in ("int", "char"):
                    return self.cast(fr, st, "IntToInt", x, ft, tt, None, sp)
                if ty["k"] == "adt" and self.p.is_unit_enum(tt):
                    vs = ty["v"]
                    if all(v["d"] == i for i, v in enumerate(vs)):
                        st.assume_le(x.addk(1 - len(vs)))
                        return [(st, ('d', x))] if not st.dead else []
                if ty["k"] == "adt":
                    return [(st, ('t', (x,)))]
            if isinstance(x, tuple) and x[0] == 'd' and ty["k"] == "int":
                return [(st, self.discr(st, x, ft))]
            if isinstance(x, tuple) and x[0] == 't' and len(x[1]) == 1 and ty["k"] in ("int", "char", "ptr", "ref"):
                return [(st, x[1][0])]
            if self.p.types[ft]["k"] == "adt" and ty["k"] == "adt":
                return [(st, x)]
            if ft == tt:
                return [(st, x)]
        if isinstance(x, tuple) and x[0] == 'T':
            return [(st, x)]
        return [(st, ('T', "cast %s" % kind))]

    def op_pointee(self, t):
        ty = self.p.types[t]
        return ty.get("e", ty["args"][0] if ty.get("args") else None)

    def array_ref(self, st, loc, v):
        """slice reference to a small fixed array stored by value at loc: move it into an array object"""
        aid = self.new_array_from(st, v[1])
        if loc[0] == 'L':
            self.store(st, loc, ('a', aid))
        return ('s', aid, Lin(0), Lin(len(v[1])))

    # ------------------------------------------------------------ control
    def tick(self):
        self.stmts += 1
        if self.deadline and (self.stmts & 255) == 0 and time.time() > self.deadline:
            raise Timeout()

    def exec_block(self, fr, b, st, loopctx=None):
        """[(succ, state)] ; succ None = return"""
        bl = fr.body["blocks"][b]
        if not self.silent:
            self.covered.add((fr.inst, b))
        work = [(st, 0)]
        outs = []
        stmts = bl["s"]
        ns = len(stmts)
        depth = fr.depth
        while work:
            s, i = work.pop()
            ok = True
            while i < ns:
                x = stmts[i]
                k = x[0]
                if k == "=":
                    self.tick()
                    dst = x[1]
                    dty = fr.locals[dst[0]] if not dst[1] else None
                    rs = self.rvalue(fr, s, x[2], dty, x[3])
                    if not dst[1]:
                        key = (depth, dst[0])
                        if len(rs) == 1:
                            s, v = rs[0]
                            if s.dead:
                                ok = False
                                break
                            s.mem[key] = v
                            i += 1
                            continue
                        for s2, v in rs:
                            if not s2.dead:
                                s2.mem[key] = v
                                work.append((s2, i + 1))
                        ok = False
                        break
                    nxt = []
                    for s2, v in rs:
                        if s2.dead:
                            continue
                        for s3, loc in self.resolve(fr, s2, dst):
                            nxt.extend(self.store(s3, loc, v))
                    if len(nxt) == 1:
                        s = nxt[0]
                        i += 1
                        continue
                    for s2 in nxt:
                        if not s2.dead:
                            work.append((s2, i + 1))
                    ok = False
                    break
                elif k == "x":
                    s.mem.pop((depth, x[1]), None)
                elif k == "sd":
                    for s2, loc in self.resolve(fr, s, x[1]):
                        self.taint(s2, "set discriminant", fr, None)
                elif k == "assume":
                    nx = []
                    for s2, v in self.ev(fr, s, x[1]):
                        nx.extend(s2.assume(self.as_bool(s2, v)))
                    if len(nx) != 1:
                        for s2 in nx:
                            work.append((s2, i + 1))
                        ok = False
                        break
                    s = nx[0]
                i += 1
            if ok and not s.dead:
                outs.extend(self.terminator(fr, bl["t"], s, bl["l"]))
        return outs

    def note(self, fr, sp, st, what):
        if fr.crate == "unicode_intervals" or fr.crate == "witness" or fr.crate.startswith("unicode"):
            st.trail = ("%s %s" % (self.p.span(sp), what), st.trail)

    def terminator(self, fr, t, st, sp):
        k = t[0]
        self.tick()
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "switch":
            out = []
            for s, v in self.ev(fr, st, t[1]):
                out.extend(self.switch(fr, s, v, t, sp))
            return out
        if k == "drop":
            return [(t[2], st)]
        if k == "call":
            return self.call(fr, t, st, sp)
        if k == "assert":
            self.checks += 1
            return self.assertion(fr, t, st, sp)
        if k in ("unreach", "resume"):
            return []
        self.taint(st, "terminator %s" % k, fr, sp)
        return []

    def switch(self, fr, st, v, t, sp):
        cases, other = t[2], t[3]
        if isinstance(v, tuple) and v[0] == 'B' or isinstance(v, bool):
            f = self.as_bool(st, v)
            # boolean switch: value 0 = false
            ft = None
            tt = other
            for val, b in cases:
                if val == 0:
                    ft = b
                elif val == 1:
                    tt = b
            if ft is None:
                ft = other
            yes, no = st.split(f)
            out = []
            multi = yes and no
            for s in yes:
                for s2 in self.refine(s, f, True):
                    if multi:
                        self.note(fr, sp, s2, "true")
                    out.append((tt, s2))
            for s in no:
                for s2 in self.refine(s, f, False):
                    if multi:
                        self.note(fr, sp, s2, "false")
                    out.append((ft, s2))
            return out
        if isinstance(v, tuple) and v[0] == 'T':
            st.add_taint(v[1])
            out = [(b, st.copy()) for _, b in cases] + [(other, st.copy())]
            return out
        x = self.as_int(st, v, self.op_ty(fr, t[1]))
        if not x.t:
            for val, b in cases:
                if val == x.k:
                    return [(b, st)]
            return [(other, st)]
        out = []
        cur = [st]
        lo, hi = st.lower(x), st.upper(x)
        ot = self.op_ty(fr, t[1])
        rng = self.p.int_range(ot) if ot is not None else None
        signed = rng is not None and rng[0] < 0
        if len(cases) > 4 and not signed:
            r = self.lut(fr, st, x, cases, other, lo, hi)
            if r is not None:
                return r
        for val, b in sorted(cases):
            if signed and val > rng[1]:
                val -= (1 << self.width(ot))
            if val < lo or val > hi:
                continue
            nxt = []
            for s in cur:
                eq, ne = s.split(('eq', x.addk(-val)))
                for s2 in eq:
                    for s3 in self.refine(s2, ('eq', x.addk(-val)), True):
                        self.note(fr, sp, s3, "== %d" % val)
                        out.append((b, s3))
                nxt += ne
            cur = nxt
        for s in cur:
            out.append((other, s))
        return out

    def lut(self, fr, st, x, cases, other, lo, hi):
        """a switch whose arms all assign value + constant to one place and meet again"""
        blocks = fr.body["blocks"]
        vals = []
        dst = join = off = kind = None
        for val, b in sorted(cases):
            if val < lo or val > hi:
                continue
            B = blocks[b]
            t = B["t"]
            ss = [q for q in B["s"] if q[0] == '=']
            if t[0] != 'goto' or len(ss) != 1 or any(q[0] not in ('=', 'sl', 'x') for q in B["s"]):
                return None
            pl, rv = ss[0][1], ss[0][2]
            if pl[1]:
                return None
            if rv[0] == 'agg' and rv[1][0] == 'adt' and not rv[2] and rv[1][3] is None and self.p.is_unit_enum(rv[1][1]):
                v, kd = rv[1][2], ('d', rv[1][1])
            elif rv[0] == 'use' and isinstance(rv[1], dict) and rv[1].get("k") == "c":
                w = self.ev(fr, st, rv[1])
                if len(w) != 1 or not isinstance(w[0][1], Lin) or w[0][1].t:
                    return None
                v, kd = w[0][1].k, 'i'
            else:
                return None
            key = (pl[0], t[1], v - val, kd)
            if dst is None:
                dst = key
            elif dst != key:
                return None
            vals.append((val, b))
        if len(vals) < 5:
            return None
        a, z = vals[0][0], vals[-1][0]
        if z - a + 1 != len(vals):
            return None
        out = []
        pl, tgt, off, kind = dst
        cur = [st]
        for f, ok in ((('le', x.addk(-z)), False), (('le', x.scale(-1).addk(a)), False)):
            nx = []
            for s in cur:
                yes, no = s.split(f)
                nx += yes
                out += [(other, q) for q in no]
            cur = nx
        for s in cur:
            for q in blocks[vals[0][1]]["s"]:
                if q[0] in ('sl', 'x'):
                    s.mem.pop((fr.depth, q[1]), None)
            y = x.addk(off)
            s.mem[(fr.depth, pl)] = ('d', y) if kind != 'i' else y
            out.append((tgt, s))
        return out

    def refine(self, st, f, val):
        """consequences of equalities for tracked mask bits"""
        if not val:
            if isinstance(f, tuple) and f[0] == 'ne':
                f = ('eq', f[1])
            else:
                return [st]
        if not isinstance(f, tuple):
            return [st]
        if f[0] == 'and':
            out = []
            for s in self.refine(st, f[1], True):
                out += self.refine(s, f[2], True)
            return out
        if f[0] != 'eq':
            return [st]
        l = f[1]
        b = l.base()
        if b is None:
            b = l.scale(-1).base()
            if b is None:
                return [st]
            c = b[1]
            c = b[1] if False else -b[1]
            # -x + k == 0 -> scale(-1): x - k
        c = -b[1]
        if b[0] in st.info and c >= 0:
            w = 64
            for p, _ in (st.info[b[0]].get('obs') or {}).items():
                for tw, q in st.glob.get('trk', ()):
                    if q == p:
                        w = tw
            return bits.const_consistent(st, L(b[0]), c, w)
        return [st]

    def assertion(self, fr, t, st, sp):
        out = []
        for s, v in self.ev(fr, st, t[1]):
            f = self.as_bool(s, v)
            if not t[2]:
                f = f_not(f)
            r = s.fact(f)
            if r is True:
                out.append((t[4], s))
                continue
            m = t[3]
            kind = {"bounds": "index out of bounds", "overflow": "arithmetic overflow", "div0": "division by zero"}.get(m[0], str(m[0]) + ":" + str(m[1] if len(m) > 1 else ""))
            if m[0] == "overflow":
                kind = "arithmetic overflow in " + str(m[1])
            ok, bad = s.split(f) if r is None else ([], [s])
            for q in bad:
                self.alarm("panic", kind, fr, sp, q)
            out += [(t[4], q) for q in ok]
        return out

    # ------------------------------------------------------------ calls
    def call(self, fr, t, st, sp):
        c, args, dest, target = t[1], t[2], t[3], t[4]
        out = []
        for s, vs in self.evs(fr, st, args):
            if s.dead:
                continue
            rs = self.do_call(fr, s, c, vs, sp, [self.op_ty(fr, a) for a in args], self.place_ty(fr, dest))
            if target is None:
                continue
            for s2, v in rs:
                if s2.dead:
                    continue
                if not dest[1]:
                    s2.mem[(fr.depth, dest[0])] = v
                    out.append((target, s2))
                else:
                    for s3, loc in self.resolve(fr, s2, dest):
                        for s4 in self.store(s3, loc, v):
                            out.append((target, s4))
        return out

    def do_call(self, fr, st, c, vs, sp, atys, rty):
        self.calls += 1
        if "dyn" in c:
            out = []
            for s, f in self.ev(fr, st, c["dyn"]):
                out.extend(self.call_value(fr, s, f, vs, sp))
            return out
        if fr.name == "witness::h_set_codepoints_more" and c.get("rdef") in DEFAULTS:
            return []       # not overridden: agrees with stepping by definition of the trait
        r = self.prims.call(fr, st, c, vs, sp, atys, rty)
        if r is not None:
            return r
        i = c.get("inst")
        if i is not None and self.p.insts.get(i, {}).get("body"):
            return self.run_fn(i, vs, st, fr, sp)
        name = c.get("rdef") or c.get("def")
        return self.havoc(fr, st, "call to %s" % name, vs, rty, sp)

    def havoc(self, fr, st, why, vs, rty, sp):
        self.taint(st, why, fr, sp)
        # everything reachable through mutable references becomes unknown
        seen = set()

        def clobber(v):
            if isinstance(v, tuple):
                if v[0] == 'r':
                    loc = v[1]
                    if loc[0] == 'L':
                        k = loc[1]
                        if k not in seen:
                            seen.add(k)
                            if k in st.mem:
                                clobber(st.mem[k])
                                st.mem[k] = ('T', why)
                    elif loc[0] == 'A':
                        clobber_arr(loc[1])
                    elif loc[0] == 'V':
                        clobber(loc[1])
                elif v[0] in ('s', 'v', 'a'):
                    clobber_arr(v[1])
                elif v[0] in ('t',):
                    for x in v[1]:
                        clobber(x)
                elif v[0] == 'e':
                    for x in v[2]:
                        clobber(x)

        def clobber_arr(a):
            if a in st.arr and a[0] != 'row':
                A = st.arr[a]
                n = st.sym(0, 1 << 40)
                st.arr[a] = Arr('o', n, (Seg(Lin(0), n, (('U', ('T', why), fresh_id()),)),))
        for v in vs:
            clobber(v)
        return [(st, self.unknown(st, rty, why))]

    def unknown(self, st, t, why):
        if t is None:
            return ('T', why)
        ty = self.p.types[t]
        if ty["k"] == "bool":
            return ('B', ('u', fresh_id()))
        rg = self.p.int_range(t)
        if rg is not None:
            return self.range_sym(st, rg)
        if ty["k"] == "tuple" and not ty["f"]:
            return UNIT
        return ('T', why)

    def call_value(self, fr, st, f, args, sp):
        """call a function value (closure, fn item, fn pointer) with a list of arguments"""
        if isinstance(f, tuple) and f[0] == 'fn' and f[1] is not None:
            i = f[1]
            c = {"inst": i, "rdef": self.p.insts[i]["def"], "def": self.p.insts[i]["def"], "rargs": self.p.insts[i].get("args")}
            r = self.prims.call(fr, st, c, args, sp, [None] * len(args), None)
            if r is not None:
                return r
            if self.p.insts[i].get("body"):
                return self.run_fn(i, args, st, fr, sp)
        return self.havoc(fr, st, "indirect call", list(args), None, sp)

    def call_closure(self, fr, st, cty, cv, args, sp):
        """cty: type id of the callee value; cv the value (by ref or by value)"""
        ty = self.p.types[cty]
        if ty["k"] in ("ref", "ptr"):
            out = []
            for s, v in (self.load(st, cv[1]) if cv[0] == 'r' else [(st, cv)]):
                if self.p.types[ty["e"]]["k"] == "closure":
                    return self.call_closure_ref(fr, st, ty["e"], cv, args, sp)
                out.extend(self.call_closure(fr, s, ty["e"], v, args, sp))
            return out
        if ty["k"] == "closure":
            return self.call_closure_ref(fr, st, cty, ('r', ('V', cv)), args, sp, byval=cv)
        if ty["k"] == "fndef":
            return self.call_value(fr, st, ('fn', ty.get("inst")), args, sp)
        if ty["k"] == "fnptr":
            return self.call_value(fr, st, cv, args, sp)
        return self.havoc(fr, st, "call of %s" % ty["k"], [cv] + list(args), None, sp)

    def call_closure_ref(self, fr, st, cty, ref, args, sp, byval=None):
        ty = self.p.types[cty]
        i = ty["inst"]
        body = self.p.insts[i]["body"]
        a0t = self.p.types[body["locals"][1]]
        self_arg = ref
        if a0t["k"] not in ("ref", "ptr"):
            if byval is not None:
                self_arg = byval
            else:
                self_arg = self.load(st, ref[1])[0][1]
        elif byval is not None:
            # needs an address: park it in a heap cell
            key = ('H', fresh_id())
            st.mem[key] = byval
            self_arg = ('r', ('L', key, ()))
        return self.run_fn(i, [self_arg] + list(args), st, fr, sp, closure=True)

    def cfg(self, i):
        c = self.cfgs.get(i)
        if c is None:
            c = self.cfgs[i] = CFG(self.p.insts[i]["body"])
        return c

    def is_closure_body(self, body):
        t = self.p.types[body["locals"][1]]
        while t["k"] in ("ref", "ptr"):
            t = self.p.types[t["e"]]
        return t["k"] == "closure"

    def run_fn(self, i, args, st, parent, sp, closure=False):
        """[(state, return value)]"""
        i = self.contracts.get(i, i)
        inst = self.p.insts[i]
        body = inst["body"]
        self.fns_seen.add(inst["name"])
        depth = parent.depth + 1 if parent is not None else 0
        if depth > 60:
            self.taint(st, "call depth", parent, sp)
            return [(st, self.unknown(st, body["locals"][0], "recursion"))]
        f = parent
        n = 0
        while f is not None:
            if f.inst == i:
                n += 1
            f = f.parent
        if n > 6:
            self.taint(st, "recursion in " + inst["name"], parent, sp)
            return [(st, self.unknown(st, body["locals"][0], "recursion"))]
        cfg = self.cfg(i)
        ck = (parent.ck if parent is not None else ()) + ((i, tuple(sp) if sp else None),)
        fr = Frame(i, body, cfg, depth, ck, inst["name"], parent, sp, inst["crate"])
        self.funcs.add(i)
        argc = body["argc"]
        spread = body.get("spread")
        vals = list(args)
        if len(vals) != argc or (not closure and argc == 2 and len(vals) == 2 and self.is_closure_body(body) and isinstance(vals[1], tuple) and vals[1][0] == 't'):
            # "rust-call": last argument is a tuple to spread
            if len(vals) == 2 and isinstance(vals[1], tuple) and vals[1][0] == 't' and len(vals[1][1]) == argc - 1:
                vals = [vals[0]] + list(vals[1][1])
            else:
                self.taint(st, "argument count of " + inst["name"], parent, sp)
                return [(st, self.unknown(st, body["locals"][0], "arguments"))]
        for k, v in enumerate(vals):
            st.mem[(depth, k + 1)] = v
        arr0 = dict(st.arr)
        rets = self.region(fr, None, 0, [st])
        res = []
        for s in rets.get(None, ()):
            v = s.mem.get((depth, 0), UNIT)
            for k in [k for k in s.mem if k[0] == depth]:
                del s.mem[k]
            res.append((s, v))
        if len(res) > 4 and (len(res) > self.STATE_LIMIT or len(vals) <= 2 or True):
            res = self.merge_returns(fr, res, arr0)
        return res

    def bound_spec(self, st, w, aids, spec):
        for aid in aids:
            pos = w.arrays.get(aid)
            if pos is None:
                continue
            a = st.arr[aid]
            cur = spec.get(pos, ())
            for i in range(1, len(a.segs)):
                b = a.segs[i].s
                if st.is_eq(b) or st.is_eq(b.sub(a.n)):
                    continue
                if b.t:
                    for lp, l, kind in w.leaves:
                        if kind == 'i' and l.t and lp[0] != 'ret' and st.is_eq(l.sub(b)) and (lp, 0) not in cur and len(cur) < 6:
                            cur += ((lp, 0),)
                            break
                elif b.k:
                    for lp, l, kind in w.leaves:
                        if l == b and w.foreign.get(lp) == aid and lp[0] != 'ret' and (lp, 0) not in cur and len(cur) < 6:
                            cur += ((lp, 0),)
                            break
            if cur:
                spec[pos] = cur

    def merge_returns(self, fr, res, arr0=None):
        groups = {}
        order = []
        if arr0 is not None:
            spec = {}
            tmp = []
            for s, v in res:
                s.mem[('ret', fr.depth)] = v
                roots = sorted(s.mem, key=str)
                w = J.prune(s, roots)
                ch = [aid for aid, a in s.arr.items() if a is not arr0.get(aid)]
                self.bound_spec(s, w, ch, spec)
                tmp.append((s, roots, ch))
            res = []
            for s, roots, ch in tmp:
                for s2 in J.normalize(s, roots, spec, only=ch):
                    if not s2.dead:
                        res.append((s2, s2.mem[('ret', fr.depth)]))
        n0 = len(res)
        sigs = []
        for s, v in res:
            s.mem[('ret', fr.depth)] = v
            roots = sorted(s.mem, key=str)
            try:
                w = J.prune(s, roots)
                sigs.append((J.signature(s, w), J.finer(s, w)))
            except KeyError:
                sigs.append((('uniq', fresh_id()), ()))
        fine = len(set(sigs)) <= 8
        for (s, v), sig in zip(res, sigs):
            roots = sorted(s.mem, key=str)
            sig = sig if fine else sig[0]
            if sig not in groups:
                order.append(sig)
                groups[sig] = s
                continue
            try:
                g, _ = J.Joiner(groups[sig], s, roots).run()
                groups[sig] = g
            except J.JoinFail:
                sig = ('uniq', fresh_id())
                order.append(sig)
                groups[sig] = s
        out = []
        for sig in order:
            s = groups[sig]
            v = s.mem.pop(('ret', fr.depth))
            out.append((s, v))
        if self.debug > 1:
            print("  " * fr.depth, "return", fr.name, len(res), "->", len(out))
        return out

    def region(self, fr, blocks, entry, states, skip_head=False):
        """run a region of the CFG from entry; returns {exit block or None: states}.
        blocks None = whole body. Edges back to `entry` are exits when blocks is a loop body."""
        cfg = fr.cfg
        num = {b: i for i, b in enumerate(cfg.rpo)} if not hasattr(cfg, 'num') else cfg.num
        cfg.num = num
        pending = {entry: list(states)}
        exits = {}
        first = True
        import heapq
        heap = [(num[entry], entry)]
        while heap:
            _, b = heapq.heappop(heap)
            sts = pending.pop(b, None)
            if not sts:
                continue
            is_head = b in cfg.loops and not (b == entry and blocks is not None and first)
            if is_head:
                outs = self.loop(fr, b, sts)
            else:
                sts = self.reduce(fr, b, sts)
                outs = []
                for s in sts:
                    outs.extend(self.exec_block(fr, b, s))
            first = False
            for tgt, s in outs:
                if tgt is None:
                    exits.setdefault(None, []).append(s)
                elif blocks is not None and (tgt not in blocks or tgt == entry):
                    exits.setdefault(tgt, []).append(s)
                else:
                    if tgt not in pending:
                        pending[tgt] = []
                        heapq.heappush(heap, (num[tgt], tgt))
                    pending[tgt].append(s)
        return exits

    def roots(self, fr, b, st):
        live = fr.cfg.live_in[b]
        d = fr.depth
        out = []
        for k in st.mem:
            if k[0] == d:
                if k[1] in live:
                    out.append(k)
            elif k[0] == 'H' or k[0] == 'ret':
                continue
            elif k[0] in ('g', 'O') or k[0] < d:
                out.append(k)
        out.sort(key=str)
        return out

    def reduce(self, fr, b, sts, limit=None):
        self.peak = max(self.peak, len(sts))
        limit = limit or self.opts.get("limit") or self.STATE_LIMIT
        if len(sts) <= limit:
            return sts
        n0 = len(sts)
        for coarse in (False, True):
            groups = {}
            for s in sts:
                rts = self.roots(fr, b, s)
                w = J.prune(s, rts)
                sig = J.signature(s, w, coarse)
                while sig in groups:
                    try:
                        g, _ = J.Joiner(groups[sig][0], s, rts).run()
                        if coarse and g is not None:
                            pass
                        groups[sig] = (g, rts)
                        break
                    except J.JoinFail:
                        sig = (sig, 'x')
                else:
                    groups[sig] = (s, rts)
            sts = [g for g, _ in groups.values()]
            if len(sts) <= limit * 4:
                break
            self.unsupported("coarse merge", fr, fr.body["blocks"][b]["l"])
        if self.debug > 1:
            print("  " * fr.depth, "reduce", fr.name, b, n0, "->", len(sts))
        return sts

    # ------------------------------------------------------------ loops
    def loop(self, fr, head, states):
        cfg = fr.cfg
        body = cfg.loops[head]
        r = self.unroll(fr, head, body, states)
        if r is not None:
            return r
        return self.fixpoint(fr, head, body, states)

    def const_leaves(self, fr, head, st):
        w = J.Walk(st, self.roots(fr, head, st))
        return {p: l.k for p, l, _ in w.leaves if not l.t}

    def unroll(self, fr, head, body, states):
        """full unrolling while the loop is driven by constants"""
        cur = [s.copy() for s in states]
        outs = []
        it = 0
        self_alarms = dict(self.alarms)
        progress = None
        noprog = mixed = left = 0
        while cur:
            it += 1
            # states that leave one by one for long: their number of rounds is unknown, not constant
            if it > 4000 or len(cur) > 120 or mixed > 34:
                self.alarms = self_alarms
                return None
            before = [self.const_leaves(fr, head, s) for s in cur]
            backs = []
            undecided = False
            for s, bc in zip(cur, before):
                ex = self.region(fr, body, head, [s])
                bk = ex.pop(head, [])
                if bk and ex:
                    # a loop may leave early only if it is driven by a constant counter
                    undecided = True
                for s2 in bk:
                    ac = self.const_leaves(fr, head, s2)
                    prog = {p for p, c in ac.items() if p in bc and bc[p] != c}
                    if not prog:
                        noprog += 1
                        if len(cur) > 1 or len(bk) > 1 or ex or noprog > 200:
                            if self.debug:
                                print("  " * fr.depth, "no unroll", fr.name, head, "it", it, len(cur), len(bk), list(ex))
                            self.alarms = self_alarms
                            return None
                    backs.append(s2)
                for t, l in ex.items():
                    outs += [(t, x) for x in l]
            if undecided:
                if self.debug:
                    print("  " * fr.depth, "no unroll (undecided)", fr.name, head, "it", it)
                self.alarms = self_alarms
                return None
            mixed += bool(backs) and len(outs) > left
            left = len(outs)
            if len(backs) > 1:
                backs = self.merge_same(fr, head, backs)
            cur = backs
        if len(outs) > 1:
            res = []
            by = {}
            for t, s in outs:
                by.setdefault(t, []).append(s)
            return [(t, s) for t, l in by.items() for s in l]
        return outs

    def merge_same(self, fr, head, sts):
        """merge states with equal signature and equal constants"""
        groups = {}
        for s in sts:
            rts = self.roots(fr, head, s)
            outl = []
            for s2 in J.normalize(s, rts, self.specs.get((fr.ck, head), {})):
                w = J.prune(s2, rts)
                sig = (J.signature(s2, w), tuple(sorted((str(p), l.k) for p, l, _ in w.leaves if not l.t)))
                while sig in groups:
                    try:
                        g, _ = J.Joiner(groups[sig], s2, rts).run()
                        groups[sig] = g
                        break
                    except J.JoinFail:
                        sig = (sig, 'x')
                else:
                    groups[sig] = s2
        return list(groups.values())

    def fixpoint(self, fr, head, body, states):
        key = (fr.ck, head)
        self.loops[(fr.inst, head)] = self.loops.get((fr.inst, head), 0) + 1
        for attempt in range(8):
            spec = self.specs.setdefault(key, {})
            r = self._fix(fr, head, body, [s.copy() for s in states], spec, attempt)
            if r is not None:
                return r
        raise Unsupported("loop invariant did not stabilise in %s" % fr.name)

    def enter_heads(self, fr, head, s, spec, heads, cnt, changed, widen):
        rts = self.roots(fr, head, s)
        J.prune(s, rts)
        for s2 in J.normalize(s, rts, spec):
            if s2.dead:
                continue
            w = J.prune(s2, rts)
            coarse = len(heads) > self.HEAD_LIMIT
            sig = J.signature(s2, w, coarse)
            while True:
                if sig not in heads:
                    heads[sig] = s2
                    cnt[sig] = 0
                    changed[sig] = True
                    break
                try:
                    wd = widen if cnt[sig] >= 2 else None
                    g, stable = J.Joiner(heads[sig], s2, rts).run(widen=wd, thr=cnt[sig] < THR)
                except J.JoinFail as e:
                    sig = (sig, 'x')
                    continue
                if not stable:
                    heads[sig] = g
                    cnt[sig] += 1
                    changed[sig] = True
                break

    def _fix(self, fr, head, body, states, spec, attempt):
        heads, cnt, changed = {}, {}, {}
        for s in states:
            self.discover(fr, head, s, spec, True)
        for s in states:
            self.enter_heads(fr, head, s, spec, heads, cnt, changed, None)
        rounds = 0
        self.silent += 1
        try:
            while changed:
                rounds += 1
                if rounds > 3000:
                    raise Unsupported("loop invariant did not stabilise in %s" % fr.name)
                sig = next(iter(changed))
                del changed[sig]
                ex = self.region(fr, body, head, [self.opened(heads[sig], cnt[sig])])
                for s in ex.get(head, ()):
                    if self.discover(fr, head, s, spec):
                        return None
                    self.enter_heads(fr, head, s, spec, heads, cnt, changed, True)
        finally:
            self.silent -= 1
        if self.debug:
            print("  " * fr.depth, "loop", fr.name.split("::")[-1], head, "rounds", rounds, "heads", len(heads), "spec", {str(k): v for k, v in spec.items()})
            if self.debug > 2:
                for sg, h in heads.items():
                    print("   HEAD", h.dump())
        outs = []
        for sig, h in heads.items():
            ex = self.region(fr, body, head, [self.opened(h, cnt[sig])])
            for t, l in ex.items():
                if t != head:
                    outs += [(t, s) for s in l]
        return outs

    def opened(self, h, n):
        s = h.copy()
        if n >= THR:
            J.close(s.Z())
        return s

    def discover(self, fr, head, st, spec, entry=False):
        """new segment bounds worth keeping at this head"""
        rts = self.roots(fr, head, st)
        w = J.Walk(st, rts)
        new = False
        for aid, pos in w.arrays.items():
            a = st.arr[aid]
            bounds = []
            for g in a.segs:
                for b in (g.s, g.e):
                    if b not in bounds and (b.t or b.k and any(l == b and w.foreign.get(lp) == aid for lp, l, _ in w.leaves)):
                        bounds.append(b)
            cur = spec.get(pos, ())
            for b in bounds:
                if st.is_eq(b) or st.is_eq(b.sub(a.n)):
                    continue
                cand = None
                for off in (0, 1):
                    for lp, l, kind in w.leaves:
                        if kind != 'i' or not l.t:
                            continue
                        if (lp, off) in cur and st.is_eq(l.addk(off).sub(b)):
                            cand = 'have'
                            break
                    if cand:
                        break
                if cand:
                    continue
                for off in (0, 1):
                    for lp, l, kind in w.leaves:
                        if kind != 'i' or w.foreign.get(lp, None if entry else aid) != aid or (not l.t or st.upper(l) == st.lower(l)) and (b.t or lp not in w.foreign):
                            continue
                        if st.is_eq(l.addk(off).sub(b)):
                            cand = (lp, off)
                            break
                    if cand:
                        break
                if cand and cand not in cur and len(cur) < 6:
                    spec[pos] = tuple(cur) + (cand,)
                    cur = spec[pos]
                    new = True
        return new
