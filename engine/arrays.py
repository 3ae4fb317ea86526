"""Segmented arrays: materialise a cell, split at a bound, classify, fold."""
import numpy as np
from dom import Lin, L, K, INF, HALF, ZERO, fresh_id, names
from state import Seg, Arr, State, vsyms, vmap, vlins, Ctx

CV = L(Ctx.C)
KV = L(Ctx.KC)


def cell_lo(ek, v):
    if ek == 'iv':
        return v[1][0]
    if ek == 'cat':
        return v[1]
    return v


def cell_hi(ek, v):
    if ek == 'iv':
        return v[1][1]
    if ek == 'cat':
        return v[1]
    return v


def well(ek, v):
    """template has the expected numeric shape"""
    if ek == 'iv':
        return isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 2 and isinstance(v[1][0], Lin) and isinstance(v[1][1], Lin)
    if ek == 'pt':
        return isinstance(v, Lin)
    if ek == 'cat':
        return isinstance(v, tuple) and v[0] == 'd'
    return True


def owned(st, tmpl, gid):
    out = set()
    vsyms(tmpl, out)
    g = st.z.grp
    return [s for s in out if g.get(s) == gid]


def clone(st, tmpl, gid, newgid):
    """copy of a clump template with its own symbols (newgid None: mandatory symbols)"""
    ow = owned(st, tmpl, gid)
    if not ow:
        return tmpl
    pairs = [(s, fresh_id()) for s in ow]
    for s, n2 in pairs:
        if s in st.info:
            st.info[n2] = st.info[s]
    z = st.Z()
    z.clone_syms(pairs, {n2: newgid for _, n2 in pairs} if newgid is not None else {})
    mp = {a: L(b) for a, b in pairs}
    r = vmap(tmpl, lambda l: l.subst(mp))
    if newgid is None:
        z.make_mandatory([b for _, b in pairs])
    return r


def clone_seg_cl(st, cl):
    out = []
    for c, t, g in cl:
        ng = fresh_id()
        out.append((c, clone(st, t, g, ng), ng))
    return tuple(out)


def drop_empty(st, seg):
    """remove clumps whose symbols became contradictory"""
    if not seg.cl or seg.single:
        return seg
    z = st.z
    bad = None
    mand = z.mandatory()
    for c in seg.cl:
        for s in owned(st, c[1], c[2]):
            i = z.ix[s]
            if z.M[i, i] < 0 or (z.M[i, mand] + z.M[mand, i]).min() < 0:
                bad = (bad or []) + [c]
                break
    if bad is None:
        return seg
    return seg.rep(cl=tuple(c for c in seg.cl if c not in bad))


def order_pair(st, ek, left, right, canon):
    """assume every element of clump value `left` precedes `right`"""
    if not well(ek, left) or not well(ek, right):
        return True
    if canon:
        l = cell_hi(ek, left).sub(cell_lo(ek, right)).addk(2 if ek == 'iv' else 1)
    else:
        l = cell_lo(ek, left).sub(cell_lo(ek, right))
    if not l.t:
        return l.k <= 0
    b = dict(l.t)
    if len(b) <= 2 and sum(b.values()) in (0, 1, -1):
        t = l.t
        z = st.Z()
        if len(t) == 2 and t[0][1] + t[1][1] == 0:
            a, c = (t[0][0], t[1][0]) if t[0][1] == 1 else (t[1][0], t[0][0])
            z.add(a, c, -l.k)
        elif len(t) == 1 and t[0][1] == 1:
            z.add(t[0][0], ZERO, -l.k)
        elif len(t) == 1 and t[0][1] == -1:
            z.add(ZERO, t[0][0], -l.k)
    return True


def proved_order(st, ek, left, right, canon):
    if not well(ek, left) or not well(ek, right):
        return False
    if canon:
        return st.is_le(cell_hi(ek, left).sub(cell_lo(ek, right)).addk(2 if ek == 'iv' else 1))
    return st.is_le(cell_lo(ek, left).sub(cell_lo(ek, right)))


def locate(st, arr, idx):
    """[(state, segment number)] with idx inside that segment"""
    segs = arr.segs
    for i, g in enumerate(segs):
        if g.single and g.s == idx:
            return [(st, i)]
    out = []
    cur = st
    for i, g in enumerate(segs):
        if cur is None:
            break
        if not g.cl and not g.single:
            # known empty or contents unreachable
            if st.is_le(g.e.sub(g.s)):
                continue
        ins, rest = cur.split(('le', idx.sub(g.e).addk(1)))
        # idx < e : inside (cursor already >= s)
        for s2 in ins:
            if s2.assume_le(g.s.sub(idx)):
                out.append((s2, i))
        cur = rest[0] if rest else None
    return out


def materialize(st, aid, idx):
    """make the cell at idx a single segment: [(state, seg number)]"""
    arr = st.arr[aid]
    out = []
    for s2, i in locate(st, arr, idx):
        g = s2.arr[aid].segs[i]
        if g.single:
            out.append((s2, i))
            continue
        out.extend(_cell(s2, aid, i, idx))
    return out


def _allowed(ord, c, side):
    """classes allowed on a side of a cell of class c"""
    if ord == 0 or c in ('U', '?'):
        return None
    if ord == 2:
        if side == 'l':
            return {'B': 'B', 'C': 'B', 'A': 'BCA'}[c]
        return {'B': 'BCA', 'C': 'A', 'A': 'A'}[c]
    if side == 'l':
        return {'B': 'BC', 'C': 'BC', 'A': 'BCA'}[c]
    return {'B': 'BCA', 'C': 'BCA', 'A': 'A'}[c]


def _cell(st, aid, i, idx):
    arr = st.arr[aid]
    g = arr.segs[i]
    ek = arr.ek
    has_left = not st.is_eq(idx.sub(g.s))
    e1 = idx.addk(1)
    has_right = not st.is_le(g.e.sub(e1))
    res = []
    for (c, tm, gid) in g.cl:
        # where may the mandatory C element be, if the cell is not it
        places = [None]
        if g.must and c != 'C':
            places = []
            al = _allowed(g.ord, c, 'l')
            ar = _allowed(g.ord, c, 'r')
            if has_left and (al is None or 'C' in al):
                places.append('l')
            if has_right and (ar is None or 'C' in ar):
                places.append('r')
        for pl in places:
            s2 = st.copy()
            cell = clone(s2, tm, gid, None)
            if s2.dead:
                continue
            segs = []
            ok = True
            for side, has, a, b in (('l', has_left, g.s, idx), ('r', has_right, e1, g.e)):
                if not has:
                    continue
                al = _allowed(g.ord, c, side)
                cl = []
                for (c2, t2, g2) in g.cl:
                    if al is not None and c2 not in al:
                        continue
                    if g.ord == 2 and c == 'B' and side == 'l' and c2 == 'C':
                        continue
                    ng = fresh_id()
                    cl.append((c2, clone(s2, t2, g2, ng), ng))
                sg = Seg(a, b, tuple(cl), must=(pl == side), ord=g.ord)
                if g.ord:
                    for (c2, t2, g2) in cl:
                        if side == 'l':
                            order_pair(s2, ek, t2, cell, g.ord == 2)
                        else:
                            order_pair(s2, ek, cell, t2, g.ord == 2)
                if s2.dead:
                    ok = False
                    break
                sg = drop_empty(s2, sg)
                if not sg.cl:
                    # no element possible: the part is empty
                    if sg.must or not s2.assume_le(b.sub(a)):
                        ok = False
                        break
                    continue
                if sg.must:
                    if 'C' not in sg.classes() or not s2.assume_le(a.sub(b).addk(1)):
                        ok = False
                        break
                segs.append((side, sg))
            if not ok or s2.dead:
                continue
            new = list(arr.segs[:i])
            new += [x for sd, x in segs if sd == 'l']
            new.append(Seg(idx, e1, ((c, cell, None),), must=(c == 'C'), ord=2 if _wellformed(s2, ek, cell) else 0, single=True))
            ci = len(new) - 1
            new += [x for sd, x in segs if sd == 'r']
            new += list(arr.segs[i + 1:])
            s2.arr[aid] = arr.rep(segs=tuple(new))
            res.append((s2, ci))
    return res


def _wellformed(st, ek, v):
    if ek == 'iv':
        return well(ek, v) and st.is_le(v[1][0].sub(v[1][1]))
    return True


def split_at(st, aid, x):
    """make x a segment boundary (0 <= x <= n): list of states"""
    arr = st.arr[aid]
    for g in arr.segs:
        if g.s == x or g.e == x:
            return [st]
    if st.is_eq(x) or st.is_eq(x.sub(arr.n)):
        return [st]
    out = []
    cur = st
    for i, g in enumerate(arr.segs):
        if cur is None:
            break
        # x <= s: boundary is at or before s (only equality possible here)
        ins, rest = cur.split(('le', x.sub(g.e)))
        for s2 in ins:
            if not s2.assume_le(g.s.sub(x)):
                continue
            out.extend(_split_seg(s2, aid, i, x))
        cur = rest[0] if rest else None
        if cur is not None and not cur.assume_le(g.e.sub(x).addk(1)):
            cur = None
    return out


def _split_seg(st, aid, i, x):
    arr = st.arr[aid]
    g = arr.segs[i]
    if st.is_eq(x.sub(g.s)) or st.is_eq(x.sub(g.e)):
        return [st]
    if g.single:
        a, b = st.split(('le', x.sub(g.s)))
        return a + b
    res = []
    for where in ((['l', 'r'] if g.must else [None])):
        s2 = st.copy()
        lcl, rcl = [], []
        for (c, t, gid) in g.cl:
            ng, nh = fresh_id(), fresh_id()
            l1 = clone(s2, t, gid, ng)
            r1 = clone(s2, t, gid, nh)
            if not (g.ord == 2 and where == 'l' and c == 'B'):
                rcl.append((c, r1, nh))
            if not (g.ord == 2 and where == 'r' and c == 'A'):
                lcl.append((c, l1, ng))
        if g.ord == 2 and where == 'l':
            rcl = [q for q in rcl if q[0] == 'A']
        if g.ord == 2 and where == 'r':
            lcl = [q for q in lcl if q[0] == 'B']
        if g.ord:
            for (c, t, _) in lcl:
                for (d, u, _) in rcl:
                    order_pair(s2, arr.ek, t, u, g.ord == 2)
        if s2.dead:
            continue
        new = list(arr.segs[:i])
        ok = True
        for cl, a, b, m in ((lcl, g.s, x, where == 'l'), (rcl, x, g.e, where == 'r')):
            sg = drop_empty(s2, Seg(a, b, tuple(cl), must=m, ord=g.ord))
            if not sg.cl:
                if m or not s2.assume_le(b.sub(a)):
                    ok = False
                continue
            if m and not s2.assume_le(a.sub(b).addk(1)):
                ok = False
            new.append(sg)
        if not ok or s2.dead:
            continue
        new += list(arr.segs[i + 1:])
        s2.arr[aid] = arr.rep(segs=tuple(new))
        res.append(s2)
    return res


def classify_value(st, ek, v):
    """[(state, class)] of a value relative to the observed element"""
    if ek == 'o' or not well(ek, v) or not st.z.has(Ctx.KC if ek == 'cat' else Ctx.C) or ek == 'pt' and st.glob.get('watch'):
        return [(st, 'U')]
    if ek == 'iv':
        lo, hi = v[1]
        b, nb = st.split(('le', hi.sub(CV).addk(1)))
        out = [(s, 'B') for s in b]
        for s in nb:
            c, a = s.split(('le', lo.sub(CV)))
            out += [(x, 'C') for x in c] + [(x, 'A') for x in a]
        return out
    x = cell_lo(ek, v)
    ref = KV if ek == 'cat' else CV
    b, nb = st.split(('le', x.sub(ref).addk(1)))
    out = [(s, 'B') for s in b]
    for s in nb:
        a, c = s.split(('le', ref.sub(x).addk(1)))
        out += [(y, 'A') for y in a]
        out += [(y, 'C') for y in c]
    return out


def classify_all(st, aid):
    """classify all '?' cells of the array: list of states"""
    arr = st.arr[aid]
    todo = [i for i, g in enumerate(arr.segs) if g.single and g.cl[0][0] == '?']
    states = [st]
    for i in todo:
        nxt = []
        for s in states:
            a = s.arr[aid]
            g = a.segs[i]
            v = g.cl[0][1]
            for s2, c in classify_value(s, a.ek, v):
                a2 = s2.arr[aid]
                segs = list(a2.segs)
                segs[i] = g.rep(cl=((c, v, None),), must=(c == 'C'), ord=2 if _wellformed(s2, a.ek, v) else 0)
                s2.arr[aid] = a2.rep(segs=tuple(segs))
                nxt.append(s2)
        states = nxt
    return states


def generalize(st, seg):
    """single -> clump (optional symbols of its own)"""
    if not seg.single:
        return seg
    c, t, _ = seg.cl[0]
    gid = fresh_id()
    t2, _ = fresh_template(st, t, gid)
    return seg.rep(cl=((c, t2, gid),), single=False, must=(c == 'C'))


def fresh_template(st, t, gid):
    """template of new optional symbols equal to the leaves of t"""
    mp = {}

    def f(l):
        if not l.t:
            pass
        if l in mp:
            return mp[l]
        s = fresh_id()
        z = st.Z()
        z.new(s)
        sv = L(s)
        b = l.base()
        i = z.ix[s]
        M = z.M
        if not l.t and abs(l.k) >= 1 << 50:
            if l.k > 0:
                M[0, i] = -(1 << 50)
        elif b is not None or not l.t:
            j = z.ix[b[0]] if b is not None else 0
            k = b[1] if b is not None else l.k
            row = M[j, :] + k
            col = M[:, j] - k
            row[row > HALF] = INF
            col[col > HALF] = INF
            M[i, :] = row
            M[:, i] = col
            M[i, i] = 0
        else:
            u, lo = st.upper(l), st.lower(l)
            if u < HALF:
                z.add(s, ZERO, u)
            if lo > -HALF:
                z.add(ZERO, s, -lo)
            for q in list(z.syms):
                if q in (ZERO, s):
                    continue
                d = l.sub(L(q))
                u = st.upper(d, 0)
                if u < HALF:
                    z.add(s, q, u)
                lo = st.lower(d, 0)
                if lo > -HALF:
                    z.add(q, s, -lo)
        bi = b[0] if b is not None and b[1] == 0 else None
        if bi in st.info:
            st.info[s] = st.info[bi]
        mp[l] = sv
        return sv
    r = vmap(t, f)
    z = st.Z()
    for l, sv in mp.items():
        z.grp[sv.sym()] = gid
    return r, mp


def join_templates(st, t1, g1, t2, g2):
    """fold clump 2 into clump 1 (both within state st); returns template or None"""
    pairs = {}
    ok = [True]

    def walk(a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            key = (a, b)
            if key not in pairs:
                pairs[key] = None
            return ('P', key)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(walk(x, y) for x, y in zip(a, b))
        if a == b and type(a) == type(b):
            return a
        if isinstance(a, bool) or isinstance(b, bool):
            return ('B', ('u', fresh_id()))
        ok[0] = False
        return a
    sh = walk(t1, t2)
    if not ok[0]:
        return None
    z = st.Z()
    gid = fresh_id()
    keys = list(pairs)
    n0 = len(z.syms)
    m = len(keys)

    def based(l):
        b = l.base()
        if b is not None:
            return z.ix[b[0]], b[1]
        if not l.t:
            return 0, l.k
        # complex: temporary symbol
        t, mp = fresh_template(st, l, -1)
        s = t.sym()
        z.grp.pop(s, None)
        return z.ix[s], 0
    bases1 = [based(k[0]) for k in keys]
    bases2 = [based(k[1]) for k in keys]
    n0 = len(z.syms)

    def embed(bases):
        idx = np.array(list(range(n0)) + [b[0] for b in bases])
        off = np.array([0] * n0 + [b[1] for b in bases], dtype=np.int64)
        M = z.M[np.ix_(idx, idx)]
        M = np.where(M >= HALF, INF, M + off[:, None] - off[None, :])
        return M
    M = np.maximum(embed(bases1), embed(bases2))
    np.fill_diagonal(M, np.minimum(np.diagonal(M), 0))
    z.M = M
    for i, k in enumerate(keys):
        s = fresh_id()
        pairs[k] = L(s)
        z.ix[s] = n0 + i
        z.syms.append(s)
        z.grp[s] = gid
        a, b = k[0].sym(), k[1].sym()
        if a in st.info and b in st.info and st.info[a] == st.info[b]:
            st.info[s] = st.info[a]

    def build(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'P':
                return pairs[x[1]]
            return tuple(build(y) if isinstance(y, tuple) else y for y in x)
        return x
    r = build(sh)
    return r, gid


def fold2(st, ek, a, b):
    """fold adjacent classified segments a,b into one"""
    if not a.single and (not a.cl):
        return b.rep(s=a.s)
    if not b.single and (not b.cl):
        return a.rep(e=b.e)
    o = min(a.ord, b.ord)
    if o:
        for (c, t, _) in a.cl:
            for (d, u, _) in b.cl:
                if ek == 'o' or not (well(ek, t) and well(ek, u)):
                    o = 0
                    break
                if o == 2 and not proved_order(st, ek, t, u, True):
                    o = 1
                if o == 1 and not proved_order(st, ek, t, u, False):
                    o = 0
                    break
            if not o:
                break
    a = generalize(st, a)
    b = generalize(st, b)
    cl = {c[0]: c for c in a.cl}
    for (d, u, g) in b.cl:
        if d in cl:
            r = join_templates(st, cl[d][1], cl[d][2], u, g)
            if r is None:
                cl[d] = (d, ('T', 'mixed array elements'), fresh_id())
            else:
                cl[d] = (d, r[0], r[1])
        else:
            cl[d] = (d, u, g)
    order = {'B': 0, 'C': 1, 'A': 2, 'U': 3, '?': 4}
    return Seg(a.s, b.e, tuple(cl[k] for k in sorted(cl, key=lambda x: order[x])), must=a.must or b.must, ord=o, fn=a.fn if a.fn == b.fn else None)


def fold_range(st, aid, i, j):
    """fold segments i..j (inclusive) in place (must be classified)"""
    arr = st.arr[aid]
    g = arr.segs[i]
    for k in range(i + 1, j + 1):
        g = fold2(st, arr.ek, g, arr.segs[k])
    g = generalize(st, g) if j > i else g
    st.arr[aid] = arr.rep(segs=arr.segs[:i] + (g,) + arr.segs[j + 1:])


def fold_all(st, aid):
    """classify and fold the whole array into at most one segment: list of states"""
    out = []
    for s in classify_all(st, aid):
        a = s.arr[aid]
        if len(a.segs) > 1:
            fold_range(s, aid, 0, len(a.segs) - 1)
        out.append(s)
    return out
