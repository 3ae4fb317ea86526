"""Signatures, normalisation at merge points, join and widening."""
import math
import numpy as np
from dom import Lin, Zone, L, K, INF, HALF, ZERO, fresh_id, names
from state import State, Seg, Arr, vsyms, vmap, Ctx, f_not, show
import arrays
import bits
from bits import info_of, obs_at
from arrays import CV, KV

THR = np.array(sorted([-0x110000, -0x10FFFF, -257, -256, -255, -64, -63, -32, -30, -29, -2, -1, 0, 1, 2, 3, 4, 10, 11, 29, 30, 31, 32, 63, 64, 255, 256,
                       1000, 0x10FFFE, 0x10FFFF, 0x110000, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 55)]), dtype=np.int64)


DBG = bool(__import__('os').environ.get('DBGJ'))
BIG = 1 << 50
NEVER = 1 << 52


class Walk:
    """positions of leaves and arrays below a list of root memory keys"""

    def __init__(self, st, roots, extra=None):
        self.st = st
        self.leaves = []     # (pos, Lin, kind)
        self.arrays = {}     # aid -> pos
        self.order = []      # aids in order
        self.keys = []
        self.sig = []
        self.seen = set()
        self.foreign = {}    # leaf position -> array it is a position of
        self.bad = None
        self.words = []      # tuples of integers, some constant
        todo = list(roots)
        # caches, exports, arbitrary lists
        todo += sorted((k for k in st.mem if k[0] == 'O' and k not in todo), key=str)
        self.todo = todo
        if extra is not None:
            self.val(('x',), extra)
        while self.todo:
            k = self.todo.pop(0)
            if k in self.seen:
                continue
            self.seen.add(k)
            if k in st.mem:
                self.keys.append(k)
                self.sig.append(k)
                self.val(k, st.mem[k])

    def arr(self, pos, aid):
        if aid in self.arrays:
            self.sig.append(('=', self.order.index(aid)))
            return
        self.arrays[aid] = pos
        self.order.append(aid)
        a = self.st.arr.get(aid)
        self.sig.append(('A', a.ek if a else None))
        if a is not None and a.ek == 'o':
            for i, g in enumerate(a.segs):
                for c in g.cl:
                    self.nested(pos + (i,), c[1])

    def nested(self, pos, v):
        """memory and arrays that elements of an array hold"""
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'str' and isinstance(v[1], bytes):
            self.sig.append(v)
        elif v[0] in ('v', 'a', 's', 'str'):
            self.arr(pos, v[1])
        elif v[0] == 'r' and v[1][0] == 'A':
            self.arr(pos, v[1][1])
        elif v[0] == 'r' and v[1][0] == 'L':
            self.todo.append(v[1][1])
        elif v[0] in ('t', 'e'):
            for j, x in enumerate(v[-1]):
                self.nested(pos + (j,), x)

    def val(self, pos, v):
        sig = self.sig
        if isinstance(v, Lin):
            self.leaves.append((pos, v, 'i'))
            sig.append('i')
            return
        if v is True or v is False:
            sig.append(v)
            return
        k = v[0]
        if k == 't':
            sig.append(('t', len(v[1])))
            if len(v[1]) >= 2 and all(isinstance(x, Lin) for x in v[1]) and any(not x.t for x in v[1]):
                self.words.append((pos, v[1]))
            for i, x in enumerate(v[1]):
                self.val(pos + (i,), x)
        elif k == 'e':
            sig.append(('e', v[1]))
            for i, x in enumerate(v[2]):
                self.val(pos + (i,), x)
        elif k == 'd':
            sig.append('d')
            self.leaves.append((pos, v[1], 'd'))
        elif k == 'B':
            sig.append('B')
        elif k == 'r':
            loc = v[1]
            sig.append(('r', loc[0]))
            if loc[0] == 'L':
                sig.append((loc[1], loc[2]))
                self.todo.append(loc[1])
            elif loc[0] == 'A':
                self.arr(pos + ('a',), loc[1])
                self.leaves.append((pos + ('ix',), loc[2], 'i'))
                sig.append(loc[3])
            elif loc[0] == 'C':
                sig.append(loc[1])
                self.leaves.append((pos + ('off',), loc[2], 'o'))
            elif loc[0] == 'V':
                self.val(pos + ('V',), loc[1])
        elif k == 's':
            sig.append('s')
            self.arr(pos + ('a',), v[1])
            self.foreign[pos + ('lo',)] = self.foreign[pos + ('hi',)] = v[1]
            self.leaves.append((pos + ('lo',), v[2], 'i'))
            self.leaves.append((pos + ('hi',), v[3], 'i'))
        elif k in ('v', 'a'):
            sig.append(k)
            self.arr(pos + ('a',), v[1])
        elif k == 'str':
            if isinstance(v[1], bytes):
                sig.append(v)
            else:
                sig.append('str')
                self.arr(pos + ('a',), v[1])
        elif k == 'T':
            sig.append('T')
        elif k == 'fn':
            sig.append(v)
        else:
            sig.append(k)
            for i, x in enumerate(v[1:]):
                if isinstance(x, (Lin, tuple)) or x is True or x is False:
                    self.val(pos + (i,), x)
                else:
                    sig.append(x)


def obs_of(st, l, kind, pos_leaf=False):
    """observation-relevant facts of a leaf that partition states"""
    out = []
    if l.t:
        s = l.sym()
        inf = st.info.get(s) if s is not None else None
        if inf is not None:
            o = inf.get('obs')
            if o:
                out.append(tuple(sorted(((repr(p), b) for p, b in o.items()))))
        if kind == 'i' and not pos_leaf and st.z.has(Ctx.C) and not (inf is not None and (inf.get('w') == 64 or inf.get('obs'))):
            d = l.sub(CV)
            u, lo = st.upper(d, 0), st.lower(d, 0)
            out.append(('c', -1 if u < 0 else 1 if lo > 0 else 0 if u == lo == 0 else None))
    if kind == 'd' and st.z.has(Ctx.KC):
        d = l.sub(KV)
        u, lo = st.upper(d, 0), st.lower(d, 0)
        out.append(('k', -1 if u < 0 else 1 if lo > 0 else 0 if u == lo == 0 else None))
    return tuple(out)


def signature(st, w, coarse=False):
    sig = list(w.sig)
    sig.append(bool(st.taint))
    for aid in w.order:
        a = st.arr[aid]
        sig.append((a.ek, len(a.segs), tuple((g.must, 'C' in g.classes(), g.single) for g in a.segs)))
    if st.glob.get('watch'):
        # how much of the watched positions each array reaches
        for aid in w.order:
            if st.arr[aid].ek != 'o':
                n = st.arr[aid].n
                sig.append(tuple(st.is_eq(x.addk(1).sub(n)) for x in st.glob['watch']))
    if not coarse:
        for pos, l, kind in w.leaves:
            o = obs_of(st, l, kind, pos[-1] in ('lo', 'hi', 'ix'))
            if o:
                sig.append((pos, o))
        if w.words and any(tw == 64 for tw, _ in st.glob.get('trk', ())):
            trk = set(bits.trackers(st, 64))
            for pos, ws in w.words:
                if any(x.k >= 1 << 32 if not x.t else (info_of(st, x) or {}).get('w') == 64 for x in ws):
                    # words of a mask: the bit of the observed code point in a constant word
                    for j, x in enumerate(ws):
                        if not x.t and CV.addk(-64 * j) in trk:
                            sig.append((pos, j, obs_at(st, x, 64, CV.addk(-64 * j))))
    return tuple(sig)


def finer(st, w):
    """array facts a join would lose: order of a segment, emptiness"""
    out = []
    for aid in w.order:
        a = st.arr[aid]
        for g in a.segs:
            d = g.e.sub(g.s)
            out.append((g.ord, 0 if st.is_le(d) else 1 if st.is_le(d.scale(-1).addk(1)) else None))
    return tuple(out)


def normalize(st, roots, spec, extra=None, only=None):
    """fold arrays to the slots given by spec {arraypos: [(leafpos, off)]}. list of (state)"""
    w = Walk(st, roots, extra)
    syms = set()
    for _, l, _ in w.leaves:
        for q, _ in l.t:
            syms.add(q)
    states = bits.settle(st, syms)
    if st.glob.get('watch'):
        states = [name_cells(s) for s in states]
    for aid, pos in w.arrays.items():
        if only is not None and aid not in only:
            continue
        nxt = []
        for s in states:
            for s2 in arrays.classify_all(s, aid):
                A = s2.arr[aid]
                ns = tuple(arrays.drop_empty(s2, g) for g in A.segs)
                ns = tuple(g.rep(cl=()) if g.cl and not g.single and s2.is_le(g.e.sub(g.s)) else g for g in ns)
                ns = tuple(g.rep(ord=2) if g.ord < 2 and A.ek != 'o' and s2.is_le(g.e.sub(g.s).addk(-1)) else g for g in ns)
                if any(x is not y for x, y in zip(ns, A.segs)):
                    s2.arr[aid] = A.rep(segs=ns)
                    if any(g.must and not g.cl for g in ns):
                        continue
                if s2.glob.get('watch') and A.ek != 'o':
                    for s3 in watched(s2, aid):
                        nxt.extend(_norm_arr(s3, aid, spec.get(pos, ()) if spec else (), dict((p, l) for p, l, _ in Walk(s3, roots, extra).leaves)))
                    continue
                nxt.extend(_norm_arr(s2, aid, spec.get(pos, ()) if spec else (), dict((p, l) for p, l, _ in w.leaves)))
        states = nxt
    return states


def name_cells(st):
    """sums stored in arrays of numbers become symbols, related to their parts by facts"""
    todo = []
    for a in st.arr.values():
        if a.ek == 'pt':
            for g in a.segs:
                if g.single and isinstance(g.cl[0][1], Lin) and len(g.cl[0][1].t) > 1:
                    x = g.cl[0][1].addk(-g.cl[0][1].k)
                    if x not in todo:
                        todo.append(x)
    for x in todo:
        s = arrays.fresh_template(st, x, None)[0]
        st.z.grp.pop(s.sym(), None)

        def f(l):
            return s.addk(l.k) if l.t == x.t else l
        st.mem = {k: vmap(v, f) for k, v in st.mem.items()}
        for k, a in list(st.arr.items()):
            st.arr[k] = a.rep(n=f(a.n), segs=tuple(g.rep(s=f(g.s), e=f(g.e), cl=tuple((c[0], vmap(c[1], f), c[2]) for c in g.cl)) for g in a.segs))
        st.ext = st.ext + (s.sub(x), x.sub(s))
    return st


def watched(st, aid):
    """the cells at the watched positions stand alone: list of states"""
    out, cur = [], [st]
    for w in st.glob['watch']:
        nxt = []
        for s in cur:
            here, gone = s.split(('le', w.addk(1).sub(s.arr[aid].n)))
            out += gone
            for h in here:
                for s2, i in arrays.materialize(h, aid, w):
                    g = s2.arr[aid].segs[i]
                    if g.single and g.s != w:
                        s2.arr[aid] = s2.arr[aid].rep(segs=tuple(x.rep(e=w) if x.e == g.s else x.rep(s=w, e=w.addk(1)) if x is g else x.rep(s=w.addk(1)) if x.s == g.e else x for x in s2.arr[aid].segs))
                    nxt.append(s2)
        cur = nxt
    out += cur
    return [s for s in out if not s.dead]


def _norm_arr(st, aid, bounds, leaves):
    a = st.arr[aid]
    bl = []
    watch = [w for w in st.glob.get('watch', ()) if a.ek != 'o' and st.is_le(w.addk(1).sub(a.n))]
    cands = []
    for w in watch:
        cands += [x for x in (w, w.addk(1)) if x not in cands]
    for (lp, off) in bounds:
        l = leaves.get(lp)
        if l is not None and l.addk(off) not in cands[:len(watch) + 1]:
            cands.append(l.addk(off))
    for b in cands:
        # must lie in [0,n]
        if not st.is_le(b.scale(-1)) or not st.is_le(b.sub(a.n)):
            continue
        i = 0
        ok = True
        while i < len(bl):
            if st.is_le(b.sub(bl[i])) and not st.is_le(bl[i].sub(b)):
                break
            if not st.is_le(bl[i].sub(b)):
                ok = False
                break
            i += 1
        if ok:
            bl.insert(i, b)
    states = [st]
    for b in bl:
        nxt = []
        for s in states:
            nxt.extend(arrays.split_at(s, aid, b))
        states = nxt
    out = []
    for s in states:
        a = s.arr[aid]
        pts = bl + [a.n]
        new = []
        i = 0
        start = Lin(0)
        s.arr[aid] = a
        okk = True
        for p in pts:
            grp = []
            while i < len(a.segs) and s.is_le(a.segs[i].e.sub(p)):
                # an empty-looking segment at the boundary goes left
                grp.append(a.segs[i])
                i += 1
                if s.is_eq(a.segs[i - 1].e.sub(p)) and (i >= len(a.segs) or not s.is_le(a.segs[i].e.sub(p)) or p is not pts[-1]):
                    break
            if watch and len(grp) > 1:
                grp = [h for h in grp if h.single or h.cl and not s.is_le(h.e.sub(h.s))] or grp[:1]
            if grp:
                g = grp[0]
                for h in grp[1:]:
                    g = arrays.fold2(s, a.ek, g, h)
                if not (g.single and len(grp) == 1 and any(w == g.s or s.is_eq(w.sub(g.s)) for w in watch)):
                    g = arrays.generalize(s, g)
                new.append(g.rep(s=start, e=p))
            else:
                new.append(Seg(start, p, (), ord=2))
            start = p
        if i < len(a.segs):
            okk = False
        if not okk:
            arrays.fold_range(s, aid, 0, len(a.segs) - 1)
        else:
            s.arr[aid] = a.rep(segs=tuple(new))
        out.append(s)
    return out


class JoinFail(Exception):
    pass


class Joiner:
    def __init__(self, a, b, roots, extra=None):
        self.a, self.b = a, b
        self.pairs = {}      # (e1,e2) normalised -> sym
        self.koff = {}
        self.news = []       # (sym, e1, e2, group)
        self.shared = set()
        self.amap = {}       # (aidA, aidB) -> new aid
        self.ra, self.rb = {}, {}
        self.aq = []
        self.gr = []
        self.st = State()
        self.roots = roots
        self.extra = extra
        self.fixbit = any(w == 32 and a.z.has(p.sym()) and a.lower(p, 0) == a.upper(p, 0) for w, p in a.glob.get('trk', ()))
        self.lossy = False
        self.lowz = {}
        self.counts = set()  # bit positions, not masks

    def leaf(self, x, y, group=None):
        if x == y and group is None and all(self.a.z.has(s) and self.b.z.has(s) for s, _ in x.t):
            if not any(s in self.a.z.grp for s, _ in x.t):
                for s, _ in x.t:
                    self.shared.add(s)
                return x
        if group is None and (x.t or y.t):
            # keep a common stride
            g = 0
            for _, c in x.t + y.t:
                g = math.gcd(g, abs(c))
            g = math.gcd(g, abs(x.k - y.k))
            if g > 1:
                r = x.k % g
                q = lambda l: Lin((l.k - r) // g, tuple((s, c // g) for s, c in l.t))
                return self.leaf(q(x), q(y)).scale(g).addk(r)
        k = 0 if self.fixbit and not x.t and not y.t or not x.t and (x.k >= 1 << 48 or y.t and 'w' in (info_of(self.b, y) or ())) else x.k
        key = (x.addk(-k), y.addk(-k), group)
        s = self.pairs.get(key)
        if s is None:
            s = fresh_id()
            self.pairs[key] = s
            self.news.append((s, key[0], key[1], group))
            self.koff[s] = k
            if k == 0 and group is None:
                l1, l2 = self.lowz_of(self.a, x, y), self.lowz_of(self.b, y, x)
                if l1 is not None and l2 is not None and (l1.t or l2.t or l1.k > 0 or l2.k > 0):
                    self.lowz[s] = self.place(l1, l2)
        return Lin(k, ((s, 1),))

    def place(self, x, y):
        """leaf for a bit position, kept apart from masks of the same values"""
        if x == y or x.t and y.t:
            return self.leaf(x, y)
        key = (x, y, 'place')
        s = self.pairs.get(key)
        if s is None:
            s = self.pairs[key] = fresh_id()
            self.news.append((s, x, y, None))
            self.koff[s] = 0
            self.counts.add(s)
        return Lin(0, ((s, 1),))

    def lowz_of(self, st, l, other):
        """all bits below this position are zero"""
        if not l.t:
            o = (self.b if st is self.a else self.a).info.get(other.sym()) if other.t else None
            if not o or 'w' not in o or l.k < 0:
                return None
            return Lin((l.k & -l.k).bit_length() - 1 if l.k else o['w'])
        i = st.info.get(l.sym())
        if i and 'w' in i:
            z = i.get('lowz')
            if z is None and 'nones' in i and i['nones'][0] == Lin(0):
                z = i['nones'][1]
            if z is None and 'ones' in i:
                z = i['ones'][0]
            return Lin(0) if z is None else z
        return None

    def arr(self, x, y):
        if (x, y) in self.amap:
            return self.amap[(x, y)]
        if self.ra.get(x, y) != y or self.rb.get(y, x) != x:
            raise JoinFail("alias")
        self.ra[x] = y
        self.rb[y] = x
        n = x
        if n in self.amap.values():
            n = ('A', fresh_id())
        self.amap[(x, y)] = n
        self.aq.append((x, y, n))
        return n

    def val(self, x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.leaf(x, y)
        if isinstance(x, bool) and isinstance(y, bool):
            if x == y:
                return x
            self.lossy = True
            return ('B', ('u', fresh_id()))
        if isinstance(x, bool) or isinstance(y, bool):
            if (isinstance(x, tuple) and x[0] == 'B') or (isinstance(y, tuple) and y[0] == 'B'):
                return ('B', ('u', fresh_id()))
        if isinstance(x, Lin) or isinstance(y, Lin) or isinstance(x, bool) or isinstance(y, bool) or x[0] != y[0]:
            self.lossy = True
            return ('T', 'join of different shapes')
        k = x[0]
        if k == 't':
            if len(x[1]) != len(y[1]):
                raise JoinFail("tuple")
            return ('t', tuple(self.val(p, q) for p, q in zip(x[1], y[1])))
        if k == 'e':
            if x[1] != y[1]:
                raise JoinFail("variant")
            return ('e', x[1], tuple(self.val(p, q) for p, q in zip(x[2], y[2])))
        if k == 'd':
            return ('d', self.leaf(x[1], y[1]))
        if k == 'B':
            if x == y:
                ss = set()
                vsyms(x, ss)
                if all(self.a.z.has(s) and self.b.z.has(s) for s in ss):
                    self.shared |= ss
                    return x
            return ('B', self.formula(x[1], y[1]))
        if k == 'r':
            p, q = x[1], y[1]
            if p[0] != q[0]:
                raise JoinFail("ref kind")
            if p[0] == 'L':
                if p != q:
                    raise JoinFail("ref target")
                return x
            if p[0] == 'A':
                if p[3] != q[3]:
                    raise JoinFail("ref path")
                return ('r', ('A', self.arr(p[1], q[1]), self.leaf(p[2], q[2]), p[3]))
            if p[0] == 'C':
                if p[1] != q[1]:
                    f = self.cjoin(p, q)
                    if f is None:
                        raise JoinFail("const ref")
                    return ('r', f)
                return ('r', ('C', p[1], self.leaf(p[2], q[2]), p[3]))
            if p[0] == 'V':
                return ('r', ('V', self.val(p[1], q[1])))
        if k == 's':
            return ('s', self.arr(x[1], y[1]), self.leaf(x[2], y[2]), self.leaf(x[3], y[3]))
        if k in ('v', 'a'):
            return (k, self.arr(x[1], y[1]))
        if k == 'str':
            if x == y and isinstance(x[1], bytes):
                return x
            if isinstance(x[1], bytes) or isinstance(y[1], bytes):
                self.lossy = True
                return ('T', 'join of different strings')
            return ('str', self.arr(x[1], y[1]))
        if k == 'T':
            return x
        if x == y:
            return x
        if len(x) == len(y):
            r = [k]
            for p, q in zip(x[1:], y[1:]):
                if isinstance(p, (Lin, tuple, bool)) and isinstance(q, (Lin, tuple, bool)):
                    r.append(self.val(p, q))
                elif p == q:
                    r.append(p)
                else:
                    raise JoinFail("value %r" % (k,))
            return tuple(r)
        raise JoinFail("value %r" % (k,))

    def cjoin(self, p, q):
        """constant pointers that differ: a map from the version to the allocation, when the version is pinned"""
        def fm(st, loc):
            asp = loc[1]
            if isinstance(asp, tuple):
                return dict(asp[1])
            if not st.z.has(Ctx.VER):
                return None
            u, lo = st.upper(L(Ctx.VER)), st.lower(L(Ctx.VER))
            if u != lo or loc[2].t:
                return None
            return {u: (asp, loc[2].k)}
        if p[3] != q[3]:
            return None
        a, b = fm(self.a, p), fm(self.b, q)
        if a is None or b is None:
            return None
        for k in set(a) & set(b):
            if a[k] != b[k]:
                return None
        a.update(b)
        self.shared.add(Ctx.VER)
        off = self.leaf(p[2] if isinstance(p[1], tuple) else Lin(0), q[2] if isinstance(q[1], tuple) else Lin(0))
        return ('C', ('FM', tuple(sorted(a.items()))), off, p[3])

    def formula(self, f, g):
        if f is True or f is False or g is True or g is False or f[0] != g[0]:
            return ('u', fresh_id())
        if f[0] in ('le', 'eq', 'ne'):
            r = self.leaf(f[1], g[1])
            return (f[0], r)
        if f[0] in ('and', 'or'):
            return (f[0], self.formula(f[1], g[1]), self.formula(f[2], g[2]))
        if f == g:
            return f
        return ('u', fresh_id())

    def segs(self, x, y, n):
        A, B = self.a.arr[x], self.b.arr[y]
        if A.ek != B.ek or len(A.segs) != len(B.segs):
            raise JoinFail("segments")
        out = []
        for g, h in zip(A.segs, B.segs):
            if g.single != h.single:
                raise JoinFail("single")
            s, e = self.leaf(g.s, h.s), self.leaf(g.e, h.e)
            cl = []
            if g.single:
                c1, t1, _ = g.cl[0]
                c2, t2, _ = h.cl[0]
                c = c1 if c1 == c2 else '?'
                out.append(Seg(s, e, ((c, self.val(t1, t2), None),), must=g.must and h.must, ord=min(g.ord, h.ord), single=True))
                continue
            da = {c[0]: c for c in g.cl}
            db = {c[0]: c for c in h.cl}
            for c in ('B', 'C', 'A', 'U', '?'):
                if c in da and c in db:
                    gid = fresh_id()
                    t = self.tmpl(da[c][1], db[c][1], gid)
                    cl.append((c, t, gid))
                elif c in da:
                    gid = fresh_id()
                    cl.append((c, self.one(da[c][1], 0, gid), gid))
                elif c in db:
                    gid = fresh_id()
                    cl.append((c, self.one(db[c][1], 1, gid), gid))
            if g.must != h.must:
                self.lossy = True
            # an empty slot does not weaken the order flag
            o = min(g.ord if g.cl else 2, h.ord if h.cl else 2)
            out.append(Seg(s, e, tuple(cl), must=g.must and h.must, ord=o, fn=g.fn if g.fn == h.fn else None))
        self.st.arr[n] = Arr(A.ek, self.leaf(A.n, B.n), tuple(out), A.tag if A.tag == B.tag else None)

    def tmpl(self, t, u, gid):
        if isinstance(t, Lin) and isinstance(u, Lin):
            return self.leaf(t, u, gid)
        if isinstance(t, bool) or isinstance(u, bool):
            return t if t == u and isinstance(t, bool) else ('B', ('u', fresh_id()))
        if t[0] != u[0]:
            return ('T', 'mixed elements')
        if t[0] == 't' and len(t[1]) == len(u[1]):
            return ('t', tuple(self.tmpl(p, q, gid) for p, q in zip(t[1], u[1])))
        if t[0] == 'd':
            return ('d', self.leaf(t[1], u[1], gid))
        if t == u and t[0] not in ('v', 'a', 's', 'r', 'str'):
            return t
        return self.val(t, u)

    def one(self, t, side, gid):
        def f(l):
            key = ((l, None, gid) if side == 0 else (None, l, gid))
            s = self.pairs.get(key)
            if s is None:
                s = fresh_id()
                self.pairs[key] = s
                self.news.append((s, key[0], key[1], gid))
            return L(s)
        if isinstance(t, tuple) and t[0] in ('v', 'a', 's', 'r', 'str'):
            return ('T', 'one-sided element')
        return vmap(t, f)

    def memos(self):
        """bit counts both sides already know"""
        a, b, st = self.a, self.b, self.st
        for (op, x, *r), v1 in a.memo.items():
            if op != 'pc' or not isinstance(x, Lin) or not x.t:
                continue
            todo = [(n[0], n[2]) for n in self.news if n[1] == x and n[2] is not None and n[3] is None]
            if x.sym() in self.shared:
                todo.append((x.sym(), x))
            for s, y in todo:
                v2 = b.memo.get((op, y, *r)) if y.t else Lin(bin(y.k).count('1')) if op == 'pc' and y.k > 0 else None
                if v2 is not None:
                    st.memo[(op, Lin(0, ((s, 1),)), *r)] = self.leaf(v1, v2)

    def run(self, widen=None, thr=True):
        a, b, st = self.a, self.b, self.st
        for k in Walk(a, self.roots, self.extra).keys:
            if k in a.mem and k in b.mem:
                st.mem[k] = self.val(a.mem[k], b.mem[k])
        while self.aq:
            x, y, n = self.aq.pop()
            self.segs(x, y, n)
        self.memos()
        st.glob = a.glob
        for l in st.glob.get('keep', ()):
            self.shared.add(l)
        st.taint = a.taint | b.taint
        st.trail = b.trail
        st.fl = {k: v for k, v in a.fl.items() if b.fl.get(k) == v}
        # facts with more variables
        lost = False
        for here, there, x, y in ((a, b, 1, 2),) + (((b, a, 2, 1),) if widen is None else ()):
            inv = {}
            for nw in self.news:
                e1, e2 = nw[x], nw[y]
                bb = e1.base() if e1 is not None and e2 is not None and nw[3] is None else None
                if bb is not None:
                    inv.setdefault(bb[0], []).append((L(nw[0]).addk(-bb[1]), e2.addk(-bb[1])))
            for f in here.ext:
                m1, m2 = {}, {}
                ok = True
                for q, c in f.t:
                    if q in inv:
                        # the same value here may be different ones there
                        pick = inv[q][0]
                        m1[q] = pick[0]
                        m2[q] = pick[1]
                    elif q not in self.shared:
                        ok = False
                        break
                if ok and len(f.t) <= 8 and any(len(inv[q]) > 1 for q, _ in f.t if q in inv):
                    # try the other choices
                    for q, _ in f.t:
                        for alt in inv.get(q, ())[1:4]:
                            k1, k2 = dict(m1), dict(m2)
                            k1[q], k2[q] = alt
                            g2 = f.subst(k1)
                            if g2 not in st.ext and len(st.ext) < 60 and there.is_le(f.subst(k2)):
                                st.ext = st.ext + (g2,)
                if ok and (f in there.ext and not m2 or there.is_le(f.subst(m2))):
                    g2 = f.subst(m1)
                    if g2 not in st.ext and len(st.ext) < 60:
                        st.ext = st.ext + (g2,)
                elif here is a:
                    lost = True
        if DBG and (len(st.ext) < len(a.ext) or len(st.ext) < len(b.ext)):
            print('EXT', widen, 'A', a.ext, 'B', b.ext, '->', st.ext, [(n[0], n[1], n[2]) for n in self.news])
        # zone
        shared = [s for s in a.z.syms if s in self.shared and s != ZERO and s in b.z.ix]
        tot = 1 + len(shared) + len(self.news)

        def embed(S, side):
            z = S.z
            idx, off, absent, cx = [0], [0], [], []
            for s in shared:
                idx.append(z.ix[s])
                off.append(0)
            for i, nw in enumerate(self.news):
                e = nw[1 + side]
                if e is None:
                    idx.append(0)
                    off.append(0)
                    absent.append(1 + len(shared) + i)
                    continue
                bb = e.base()
                if bb is not None:
                    idx.append(z.ix[bb[0]])
                    off.append(bb[1])
                elif not e.t:
                    idx.append(0)
                    off.append(e.k)
                else:
                    S2 = S
                    t, mp = arrays.fresh_template(S2, e, -1)
                    z = S2.z
                    z.grp.pop(t.sym(), None)
                    idx.append(z.ix[t.sym()])
                    off.append(0)
            z = S.z
            idx = np.array(idx)
            big = [i for i, o in enumerate(off) if abs(o) >= BIG]
            off = np.array([o if abs(o) < BIG else 0 for o in off], dtype=np.int64)
            M = z.M[np.ix_(idx, idx)]
            M = np.where(M >= HALF, INF, M + off[:, None] - off[None, :])
            for i in big:
                M[i, :] = INF
                M[:, i] = INF
                M[0, i] = -BIG
                M[i, i] = 0
            if absent:
                ab = np.array(absent)
                M[ab, :] = -INF
                M[:, ab] = -INF
            return M
        M1 = embed(a, 0)
        M2 = embed(b, 1)
        M = np.maximum(M1, M2)
        M[M <= -NEVER // 2] = -NEVER     # two optional elements that never exist together
        M1 = np.where(M1 <= -HALF, INF - 1, M1)
        np.fill_diagonal(M, 0)
        np.fill_diagonal(M1, 0)
        stable = bool((M <= M1).all()) and not any(n_[1] is None for n_ in self.news)
        if widen is not None and not stable:
            un = M > M1
            if DBG:
                nm = [ZERO] + shared + [(n_[0], str(n_[1])) for n_ in self.news]
                print('UNST M', [(nm[i], nm[j], M1[i, j], M[i, j]) for i, j in zip(*np.where(un))][:6], [n_ for n_ in self.news if n_[1] is None][:2])
            if thr:
                ti = np.searchsorted(THR, M, side='left')
                tv = np.where(ti < len(THR), THR[np.minimum(ti, len(THR) - 1)], INF)
                ko = np.array([0] * (1 + len(shared)) + [self.koff.get(n_[0], 0) for n_ in self.news])
                if ko.any():
                    # thresholds for the values as the program sees them, offsets included
                    D = ko[:, None] - ko[None, :]
                    ti = np.searchsorted(THR, np.where(M < HALF, M + D, M), side='left')
                    t2 = np.where(ti < len(THR), THR[np.minimum(ti, len(THR) - 1)] - D, INF)
                    tv = np.minimum(tv, t2)
                M = np.where(un & (M < HALF), tv, M)
            else:
                M = np.where(un, INF, M)
            np.fill_diagonal(M, 0)
        z = Zone()
        z.M = M
        z.syms = [ZERO] + shared + [n_[0] for n_ in self.news]
        z.ix = {s: i for i, s in enumerate(z.syms)}
        for s, e1, e2, g in self.news:
            if g is not None:
                z.grp[s] = g
        for s in shared:
            if s in a.z.grp:
                z.grp[s] = a.z.grp[s]
        st.z = z
        if widen is not None and not stable and thr:
            close(z)
        if widen is not None and not stable:
            # a segment that surely holds an element is not empty
            for A in st.arr.values():
                for g in A.segs:
                    if g.must and not g.single:
                        st.assume_le(g.s.sub(g.e).addk(1))
        for k, A in list(st.arr.items()):
            ns = tuple(arrays.drop_empty(st, g) for g in A.segs)
            if any(x is not y for x, y in zip(ns, A.segs)):
                st.arr[k] = A.rep(segs=ns)
        # infos
        for s in shared:
            if s in a.info and s in b.info:
                j = join_info(a, a.info[s], b, b.info[s], self, L(s), L(s))
                if j:
                    st.info[s] = j
        for s, e1, e2, g in self.news:
            if e1 is not None and e2 is not None:
                i1, i2 = info_of(a, e1), info_of(b, e2)
                if i1 and i2:
                    j = join_info(a, i1, b, i2, self, e1, e2)
                    if s in self.counts and not i1 and not i2:
                        j = None
                    if s in self.lowz:
                        j = dict(j or {})
                        j['lowz'] = self.lowz[s]
                    if j:
                        st.info[s] = j
                        if e1.sym() is not None and nolz(j) != nolz(a.info.get(e1.sym())):
                            if DBG: print('UNST info', s, e1, a.info.get(e1.sym()), j)
                            stable = False
            else:
                i1 = info_of(a, e1) if e1 is not None else info_of(b, e2)
                if i1:
                    st.info[s] = i1
        for k, v in a.memo.items():
            if b.memo.get(k) == v:
                ss = set()
                vsyms(k, ss)
                vsyms(v, ss)
                if all(s in z.ix for s in ss):
                    st.memo[k] = v
        # structural stability
        if stable:
            for (x, y), n in self.amap.items():
                A, N = a.arr[x], st.arr[n]
                for g, h in zip(A.segs, N.segs):
                    if g.must != h.must or g.ord != h.ord or g.classes() != h.classes() or g.fn != h.fn:
                        stable = False
            if self.lossy and a.mem != st.mem:
                # some value degraded
                for k in st.mem:
                    if degraded(a.mem.get(k), st.mem[k]):
                        stable = False
        if lost and widen is not None:
            stable = False
        return st, stable


def nolz(i):
    if not i or 'lowz' not in i:
        return i
    i = dict(i)
    i['lowz'] = True
    return i


def degraded(x, y):
    if isinstance(y, tuple) and y and y[0] in ('T', 'B'):
        return not (isinstance(x, tuple) and x and x[0] == y[0])
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return any(degraded(p, q) for p, q in zip(x, y) if isinstance(q, tuple))
    return False


def join_info(a, i1, b, i2, J, e1=None, e2=None):
    if i1 is i2 or i1 == i2:
        ok = True
        ss = set()
        vsyms(tuple(x for x in i1.values() if isinstance(x, (tuple, Lin))), ss)
        for s in ss:
            if s not in J.shared and s != ZERO:
                ok = False
        for p in (i1.get('obs') or {}):
            for s, _ in p.t:
                J.shared.add(s)
        if ok:
            return i1
    out = {}
    o1, o2 = i1.get('obs') or {}, i2.get('obs') or {}
    w = i1.get('w') or i2.get('w')
    if w is None and e1 is not None and e2 is not None and not e1.t and not e2.t and 0 <= e1.k < 1 << 32 and 0 <= e2.k < 1 << 32:
        # two constants: keep a bit both agree on when its position is known
        for tw, p in a.glob.get('trk', ()):
            if tw == 32 and a.lower(p, 0) == a.upper(p, 0):
                x, y = obs_at(a, e1, 32, p), obs_at(b, e2, 32, p)
                if x is not None and x is y:
                    for s, _ in p.t:
                        J.shared.add(s)
                    return {'w': 32, 'obs': {p: x}}
    if w is None:
        return None if 'hib' not in i1 or 'hib' not in i2 else {'hib': max(i1['hib'], i2['hib'])}
    out['w'] = w
    o = {}
    for p in dict(list(o1.items()) + list(o2.items())):
        v = o1[p] if p in o1 else obs_at(a, e1, w, p) if e1 is not None else None
        if v is not None:
            u = o2[p] if p in o2 else obs_at(b, e2, w, p) if e2 is not None else None
            if u is v:
                o[p] = v
    if o:
        out['obs'] = o
    if 'hib' in i1 and 'hib' in i2:
        out['hib'] = max(i1['hib'], i2['hib'])
    return out or None


def close(z):
    M = z.M
    n = M.shape[0]
    grp = z.grp
    for k in range(n):
        g = grp.get(z.syms[k])
        if g is not None:
            continue
        c = M[:, k][:, None] + M[k, :][None, :]
        np.minimum(M, c, out=M)
    M[M > HALF] = INF
    z._check()


def foreign_words(st):
    """in an array of words, word j is only watched at the code points it stands for"""
    for v in st.mem.values():
        if isinstance(v, tuple) and v and v[0] == 't' and len(v[1]) >= 2:
            for j, x in enumerate(v[1]):
                s = x.sym() if isinstance(x, Lin) and x.t else None
                i = st.info.get(s) if s is not None else None
                if i and i.get('w') == 64 and i.get('obs'):
                    own = CV.addk(-64 * j)
                    o = {p: b for p, b in i['obs'].items() if p == own}
                    if len(o) != len(i['obs']):
                        i = dict(i)
                        i['obs'] = o
                        st.info[s] = i


def prune(st, roots, extra=None):
    """drop memory, arrays and symbols not reachable from roots"""
    w = Walk(st, roots, extra)
    keep = set(w.keys)
    foreign_words(st)
    st.mem = {k: v for k, v in st.mem.items() if k in keep}
    st.arr = {k: v for k, v in st.arr.items() if k in w.arrays}
    syms = set(st.glob.get('keep', ()))
    for v in st.mem.values():
        vsyms(v, syms)
    if extra is not None:
        vsyms(extra, syms)
    for k, a in list(st.arr.items()):
        vsyms(a.n, syms)
        for g in a.segs:
            vsyms(g.s, syms)
            vsyms(g.e, syms)
            for c in g.cl:
                vsyms(c[1], syms)
    # masks refer to other symbols
    grow = True
    while grow:
        grow = False
        for s in list(syms):
            inf = st.info.get(s)
            if inf:
                more = set()
                for v in inf.values():
                    if isinstance(v, (tuple, Lin)):
                        vsyms(v, more)
                    elif isinstance(v, dict):
                        for p in v:
                            vsyms(p, more)
                if not more <= syms:
                    syms |= more
                    grow = True
    memo = {}
    for k, v in st.memo.items():
        ss = set()
        vsyms(k, ss)
        vv = set()
        vsyms(v, vv)
        if ss <= syms:
            memo[k] = v
            syms |= vv
    st.memo = memo
    z = st.z
    if any(s not in syms for s in z.syms if s != ZERO):
        st.Z().keep(syms)
    st.info = {s: v for s, v in st.info.items() if s in syms}
    st.ext = tuple(e for e in st.ext if all(s in syms for s, _ in e.t))
    return w
