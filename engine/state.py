"""Abstract states: zone + memory of structured values + segmented arrays; joins, folding, materialisation."""
import numpy as np
from dom import Lin, Zone, L, K, INF, HALF, ZERO, fresh_id, names

# ---------------------------------------------------------------- values
# Lin                      integer / char
# True/False               bool          ('B', formula)  symbolic bool
# ('t', (v,..))            tuple, struct, closure captures, small fixed array
# ('e', variant, (v,..))   enum with payload, known variant
# ('d', Lin)               payload-free enum, by variant index
# ('r', loc)               reference      loc = ('L', key, path) | ('A', aid, idx, path) | ('C', aspec, off, ty) | ('V', value)
# ('s', aid, lo, hi)       slice reference into an array object
# ('v', aid)               Vec            ('a', aid) array by value with abstract contents
# ('str', x)               any string: x = bytes (constant) or aid of the char array
# ('fn', inst)             function item / pointer
# ('T', why)               unknown
# formulas: ('le',Lin) ('eq',Lin) ('ne',Lin) ('and',f,g) ('or',f,g) ('u',id) ('nu',id) True False

UNIT = ('t', ())


def f_not(f):
    if f is True or f is False:
        return not f
    k = f[0]
    if k == 'le':      # l<=0  ->  -l+1<=0
        return ('le', f[1].scale(-1).addk(1))
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return ('eq', f[1])
    if k == 'and':
        return ('or', f_not(f[1]), f_not(f[2]))
    if k == 'or':
        return ('and', f_not(f[1]), f_not(f[2]))
    if k == 'u':
        return ('nu', f[1])
    if k == 'nu':
        return ('u', f[1])
    if k == 'bit':     # ('bit', sym, bool)
        return ('bit', f[1], not f[2])
    raise Exception(f)


def vlins(v, out):
    """collect Lin leaves"""
    if isinstance(v, Lin):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Lin)):
                vlins(x, out)


def vsyms(v, out):
    if isinstance(v, Lin):
        for s, _ in v.t:
            out.add(s)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Lin)):
                vsyms(x, out)


def vmap(v, f):
    if isinstance(v, Lin):
        return f(v)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) if isinstance(x, (tuple, Lin)) else x for x in v)
    return v


class Seg:
    """elements [s,e): clumps cl = ((cls, template, gid), ...); single: exactly one element"""
    __slots__ = ("s", "e", "cl", "must", "ord", "single", "fn")

    def __init__(self, s, e, cl, must=False, ord=0, single=False, fn=None):
        self.s = s
        self.e = e
        self.cl = cl
        self.must = must
        self.ord = ord
        self.single = single
        self.fn = fn

    def rep(self, **kw):
        g = Seg(self.s, self.e, self.cl, self.must, self.ord, self.single, self.fn)
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def classes(self):
        return tuple(c[0] for c in self.cl)

    def __repr__(self):
        return "[%r,%r)%s%s%s{%s}" % (self.s, self.e, "!" if self.must else "", "usc"[self.ord], "1" if self.single else "",
                                     " ".join("%s:%s" % (c[0], show(c[1])) for c in self.cl))


class Arr:
    __slots__ = ("ek", "n", "segs", "tag")

    def __init__(self, ek, n, segs, tag=None):
        self.ek = ek      # 'iv' | 'pt' | 'cat' | 'o'
        self.n = n
        self.segs = segs
        self.tag = tag

    def rep(self, **kw):
        a = Arr(self.ek, self.n, self.segs, self.tag)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def __repr__(self):
        return "Arr<%s>#%r %s" % (self.ek, self.n, " ".join(map(repr, self.segs)))


def show(v):
    if isinstance(v, Lin):
        return repr(v)
    if v is True or v is False:
        return str(v)
    if isinstance(v, tuple):
        if v and v[0] == 't':
            return "(" + ", ".join(show(x) for x in v[1]) + ")"
        if v and v[0] == 'e':
            return "#%d(%s)" % (v[1], ", ".join(show(x) for x in v[2]))
        return "<" + " ".join(show(x) for x in v) + ">"
    return str(v)


class Ctx:
    """what is fixed during one analysis: observed symbols, options"""
    C = 1   # observed code point
    KC = 2  # its category index (order of the reference tables)
    VER = 3


names[1] = "C"
names[2] = "K"
names[3] = "VER"


class State:
    __slots__ = ("z", "zs", "mem", "arr", "info", "memo", "ext", "taint", "trail", "glob", "fl")

    def __init__(self):
        self.z = Zone()
        self.zs = False
        self.mem = {}
        self.arr = {}
        self.info = {}
        self.memo = {}
        self.ext = ()
        self.taint = frozenset()
        self.trail = None
        self.glob = {}
        self.fl = {}

    def copy(self):
        s = State.__new__(State)
        self.zs = True
        s.z = self.z
        s.zs = True
        s.mem = dict(self.mem)
        s.arr = dict(self.arr)
        s.info = dict(self.info)
        s.memo = dict(self.memo)
        s.ext = self.ext
        s.taint = self.taint
        s.trail = self.trail
        s.glob = dict(self.glob)
        s.fl = dict(self.fl)
        return s

    # ---- zone access
    def Z(self):
        if self.zs:
            self.z = self.z.copy()
            self.zs = False
        return self.z

    @property
    def dead(self):
        return self.z.dead

    def sym(self, lo=None, hi=None, grp=None, name=None):
        s = fresh_id()
        if name:
            names[s] = "%s%d" % (name, s)
        self.Z().new(s, lo, hi, grp)
        return L(s)

    def add_taint(self, why):
        if why not in self.taint:
            self.taint = self.taint | {why}

    # ---- linear reasoning
    def upper(self, l, depth=1):
        """upper bound of linear expression"""
        t = l.t
        z = self.z
        if not t:
            return l.k
        n = len(t)
        if n == 1:
            s, c = t[0]
            if c > 0:
                b = z.bound(s, ZERO)
                r = INF if b >= HALF else b * c + l.k
            else:
                b = z.bound(ZERO, s)
                r = INF if b >= HALF else b * (-c) + l.k
        elif n == 2 and t[0][1] + t[1][1] == 0:
            c = t[0][1]
            if c > 0:
                b = z.bound(t[0][0], t[1][0])
            else:
                b = z.bound(t[1][0], t[0][0])
                c = -c
            r = INF if b >= HALF else b * c + l.k
        else:
            r = self._upper_multi(l)
        if self.ext and depth > 0:
            for e in self.ext:
                if any(s in dict(e.t) for s, _ in t):
                    d = l.sub(e)
                    if len(d.t) < len(l.t) + 2:
                        b = self.upper(d, depth - 1)
                        if b < r:
                            r = b
        return r

    def _upper_multi(self, l):
        z = self.z
        best = INF
        # units
        pos = []
        neg = []
        for s, c in l.t:
            if abs(c) > 4:
                # big coefficients: interval only
                pos = None
                break
            (pos if c > 0 else neg).extend([s] * abs(c))

        def rec(pos, neg):
            nonlocal_best = INF
            if not pos:
                tot = 0
                for b in neg:
                    x = z.bound(ZERO, b)
                    if x >= HALF:
                        return INF
                    tot += x
                return tot
            a = pos[0]
            r = INF
            x = z.bound(a, ZERO)
            if x < HALF:
                y = rec(pos[1:], neg)
                if y < HALF:
                    r = min(r, x + y)
            seen = set()
            for i, b in enumerate(neg):
                if b in seen:
                    continue
                seen.add(b)
                x = z.bound(a, b)
                if x < HALF:
                    y = rec(pos[1:], neg[:i] + neg[i + 1:])
                    if y < HALF:
                        r = min(r, x + y)
            return r
        if pos is not None and len(pos) + len(neg) <= 6:
            best = rec(pos, neg)
            if best < HALF:
                best += l.k
        tot = l.k
        for s, c in l.t:
            if c > 0:
                b = z.bound(s, ZERO)
                if b >= HALF:
                    tot = INF
                    break
                tot += b * c
            else:
                b = z.bound(ZERO, s)
                if b >= HALF:
                    tot = INF
                    break
                tot += b * -c
        return min(best, tot)

    def lower(self, l, depth=1):
        u = self.upper(l.scale(-1), depth)
        return -u if u < HALF else -INF

    def is_le(self, l):
        """prove l <= 0"""
        if not l.t:
            return l.k <= 0
        return self.upper(l) <= 0

    def is_eq(self, l):
        if not l.t:
            return l.k == 0
        return self.upper(l) <= 0 and self.upper(l.scale(-1)) <= 0

    def fact(self, f):
        """True / False / None"""
        if f is True or f is False:
            return f
        k = f[0]
        if k == 'le':
            l = f[1]
            if not l.t:
                return l.k <= 0
            if self.upper(l) <= 0:
                return True
            if self.lower(l) > 0:
                return False
            return None
        if k == 'eq' or k == 'ne':
            l = f[1]
            r = None
            if not l.t:
                r = l.k == 0
            else:
                u = self.upper(l)
                lo = self.lower(l)
                if u == 0 and lo == 0:
                    r = True
                elif u < 0 or lo > 0:
                    r = False
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'and':
            a = self.fact(f[1])
            if a is False:
                return False
            b = self.fact(f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.fact(f[1])
            if a is True:
                return True
            b = self.fact(f[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        if k == 'u' or k == 'nu':
            v = self.fl.get(f[1])
            if v is None:
                return None
            return v if k == 'u' else not v
        raise Exception(f)

    def assume_le(self, l):
        """in place; False if infeasible"""
        t = l.t
        if not t:
            if l.k > 0:
                self.Z().dead = True
                return False
            return True
        n = len(t)
        if n == 1:
            s, c = t[0]
            if c > 0:     # c*s + k <= 0
                self.Z().add(s, ZERO, (-l.k) // c)
            else:
                self.Z().add(ZERO, s, (-l.k) // (-c))
        elif n == 2 and t[0][1] + t[1][1] == 0:
            c = t[0][1]
            a, b = t[0][0], t[1][0]
            if c < 0:
                a, b, c = b, a, -c
            self.Z().add(a, b, (-l.k) // c)
        else:
            if self.lower(l) > 0:
                self.Z().dead = True
                return False
            if l not in self.ext and len(self.ext) < 60:
                self.ext = self.ext + (l,)
            self._tighten(l)
        if self.z.dead:
            return False
        if self.ext and n <= 2:
            for e in self.ext:
                if len(e.t) <= 4:
                    self._tighten(e)
                    if self.z.dead:
                        return False
        return True

    def _tighten(self, l):
        """l<=0 with several variables: derive binary/unary consequences"""
        t = l.t
        n = len(t)
        for i in range(n):
            s, c = t[i]
            if abs(c) != 1:
                continue
            rest = Lin(l.k, t[:i] + t[i + 1:])
            lo = self.lower(rest, 0)
            if lo > -HALF:
                if c == 1:
                    self.Z().add(s, ZERO, -lo)
                else:
                    self.Z().add(ZERO, s, -lo)
                if self.z.dead:
                    return
            for j in range(n):
                s2, c2 = t[j]
                if c == 1 and c2 == -1:
                    rest = Lin(l.k, tuple(x for q, x in enumerate(t) if q != i and q != j))
                    lo = self.lower(rest, 0)
                    if lo > -HALF:
                        self.Z().add(s, s2, -lo)
                        if self.z.dead:
                            return

    def assume(self, f):
        """list of states refined by formula f (self may be mutated and returned)"""
        if f is True:
            return [self]
        if f is False:
            return []
        k = f[0]
        if k == 'le':
            return [self] if self.assume_le(f[1]) else []
        if k == 'eq':
            return [self] if self.assume_le(f[1]) and self.assume_le(f[1].scale(-1)) else []
        if k == 'ne':
            r = self.fact(f)
            if r is True:
                return [self]
            if r is False:
                return []
            l = f[1]
            u, lo = self.upper(l), self.lower(l)
            if lo == 0:
                return [self] if self.assume_le(l.scale(-1).addk(1)) else []
            if u == 0:
                return [self] if self.assume_le(l.addk(1)) else []
            o = self.copy()
            out = []
            if self.assume_le(l.addk(1)):
                out.append(self)
            if o.assume_le(l.scale(-1).addk(1)):
                out.append(o)
            return out
        if k == 'and':
            out = []
            for s in self.assume(f[1]):
                out.extend(s.assume(f[2]))
            return out
        if k == 'or':
            o = self.copy()
            out = self.assume(f[1])
            for s in o.assume(f_not(f[1])):
                out = out + s.assume(f[2])
            return out
        if k == 'u' or k == 'nu':
            want = k == 'u'
            v = self.fl.get(f[1])
            if v is None:
                self.fl[f[1]] = want
                return [self]
            return [self] if v == want else []
        raise Exception(f)

    def split(self, f):
        """(states where f, states where not f)"""
        r = self.fact(f)
        if r is True:
            return [self], []
        if r is False:
            return [], [self]
        o = self.copy()
        return self.assume(f), o.assume(f_not(f))

    def dump(self):
        out = []
        for k, v in sorted(self.mem.items(), key=str):
            out.append("%s = %s" % (k, show(v)))
        for k, v in sorted(self.arr.items(), key=str):
            out.append("%s : %r" % (k, v))
        out.append(self.z.dump())
        out.append("info %s" % {names.get(k, "s%d" % k): v for k, v in self.info.items()})
        out.append("memo %s" % (self.memo,))
        out.append("ext %s" % (self.ext,))
        if self.taint:
            out.append("taint %s" % (self.taint,))
        return "\n".join(out)

