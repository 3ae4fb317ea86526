"""Bit masks: every mask value carries the bits at the tracked positions plus a few exact shapes."""
from dom import Lin, L, K, INF, HALF, ZERO, fresh_id
from state import vsyms

FULL = {w: (1 << w) - 1 for w in (8, 16, 32, 64, 128)}


def runs_of(c):
    """[(lo,hi)) of set bits"""
    out = []
    i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def trackers(st, w):
    return [p for (tw, p) in st.glob.get('trk', ()) if tw == w and st.upper(p) >= 0 and st.lower(p) < w]


def tracked(st, x, w, p):
    """something is known about this bit"""
    if not x.t:
        return True
    if p in (info_of(st, x) or {}).get('obs', ()):
        return True
    return any(b is not None for _, b in getbit(st.copy(), x, w, p))


def info_of(st, l):
    """info for a value: constants and shifted-minus-one included"""
    if not l.t:
        c = l.k
        if c < 0:
            return None
        d = {'const': c, 'hib': c.bit_length()}
        r = runs_of(c) if c < (1 << 128) else []
        if len(r) == 1:
            d['ones'] = (Lin(r[0][0]), Lin(r[0][1]))
        return d
    s = l.sym()
    if s is not None:
        return st.info.get(s)
    b = l.base()
    if b is not None and b[1] == -1:
        i = st.info.get(b[0])
        if i and 'ones' in i:
            a, e = i['ones']
            if e.sub(a) == Lin(1):
                return {'ones': (Lin(0), a)}
    return None


def has_obs(st, l, w):
    if not l.t:
        return True
    i = info_of(st, l)
    if not i:
        return False
    return bool(i.get('obs')) or 'ones' in i or 'nones' in i or 'shr' in i


def setobs(st, l, pos, val):
    s = l.sym()
    if s is None:
        return
    i = dict(st.info.get(s) or {})
    o = dict(i.get('obs') or {})
    o[pos] = val
    i['obs'] = o
    st.info[s] = i
    if val:
        st.assume_le(l.scale(-1).addk(1))


def settle(st, syms=None):
    """make the tracked bits of run-shaped masks explicit: [states]"""
    res = [st]
    for s in list(st.info):
        if syms is not None and s not in syms:
            continue
        i = st.info[s]
        if 'w' not in i or not ('ones' in i or 'nones' in i or 'shr' in i):
            continue
        for p in trackers(st, i['w']):
            if p in (i.get('obs') or {}):
                continue
            nxt = []
            for q in res:
                for q2, b in getbit(q, L(s), i['w'], p):
                    if q2.dead:
                        continue
                    if b is not None:
                        i2 = dict(q2.info[s])
                        o = dict(i2.get('obs') or {})
                        o[p] = b
                        i2['obs'] = o
                        q2.info[s] = i2
                    nxt.append(q2)
            res = nxt
    return res


def obs_at(st, l, w, p):
    """tracked bit without forking: True / False / None"""
    if l.t:
        i = info_of(st, l)
        if not i:
            return None
        o = i.get('obs')
        if o and p in o:
            return o[p]
    elif l.k == 0:
        return False
    r = {b for s, b in getbit(st.copy(), l, w, p) if not s.dead}
    return r.pop() if len(r) == 1 else None


def _triple(st, x, p):
    """fork on x<p, x==p, x>p : [(state, sign)]"""
    out = []
    d = x.sub(p)
    lt, ge = st.split(('le', d.addk(1)))
    out += [(s, -1) for s in lt]
    for s in ge:
        gt, eq = s.split(('le', d.scale(-1).addk(1)))
        out += [(q, 1) for q in gt]
        out += [(q, 0) for q in eq]
    return out


def getbit(st, l, w, pos):
    """[(state, True/False/None)]"""
    if not l.t:
        c = l.k & FULL[w]
        if not pos.t:
            return [(st, bool((c >> pos.k) & 1) if 0 <= pos.k < w else False)]
        out = []
        cur = st
        edges = []
        for a, b in runs_of(c):
            edges.append((a, b))
        for a, b in edges:
            if cur is None:
                break
            lo, hi = cur.split(('le', pos.addk(1 - a)))      # pos < a
            out += [(s, False) for s in lo]
            cur = hi[0] if hi else None
            if cur is None:
                break
            ins, rest = cur.split(('le', pos.addk(1 - b)))   # pos < b
            out += [(s, True) for s in ins]
            cur = rest[0] if rest else None
        if cur is not None:
            out.append((cur, False))
        return out
    i = info_of(st, l)
    if not i:
        return [(st, None)]
    if st.upper(pos) < 0 or st.lower(pos) >= w:
        return [(st, False)]
    if 'ones' in i or 'nones' in i:
        neg = 'nones' in i
        a, b = i['nones' if neg else 'ones']
        out = []
        lo, ge = st.split(('le', pos.sub(a).addk(1)))
        out += [(s, neg) for s in lo]
        for s in ge:
            ins, hi = s.split(('le', pos.sub(b).addk(1)))
            out += [(q, not neg) for q in ins]
            out += [(q, neg) for q in hi]
        return out
    if 'hib' in i and st.is_le(Lin(i['hib']).sub(pos)):
        return [(st, False)]
    if 'lowz' in i and st.is_le(pos.sub(i['lowz']).addk(1)):
        return [(st, False)]
    for z in i.get('zat', ()):
        if st.is_eq(pos.sub(z)):
            return [(st, False)]
    if 'shr' in i:
        src, amt = i['shr']
        p2 = pos.add(amt)
        if st.is_le(p2.addk(1 - w)):
            return getbit(st, src, w, p2)
    o = i.get('obs') or {}
    res = [(st, None)]
    for p, v in o.items():
        nxt = []
        for s, r in res:
            if r is not None:
                nxt.append((s, r))
                continue
            for s2, sg in _triple(s, pos, p):
                nxt.append((s2, v if sg == 0 else None))
        res = nxt
    return res


def mk(st, w, info, lo=0, hi=None):
    """fresh mask symbol"""
    hib = info.get('hib')
    top = FULL[w] if hib is None else (1 << min(hib, w)) - 1
    if hi is not None:
        top = min(top, hi)
    if any(v for v in (info.get('obs') or {}).values()):
        lo = max(lo, 1)
    r = st.sym(lo, top)
    info['w'] = w
    st.info[r.sym()] = info
    return r


def obs_all(st, w, ls, f):
    """compute tracked bits of a function of several masks: [(state, obsdict)]"""
    res = [(st, {})]
    for p in trackers(st, w):
        nxt = []
        if w == 64 and not all(not l.t or tracked(st, l, w, p) for l in ls):
            # no new case distinction, but what is certain is kept
            for s, o in res:
                b = f(*[obs_at(s, l, w, p) for l in ls])
                nxt.append((s, o if b is None else {**o, p: b}))
            res = nxt
            continue
        for s, o in res:
            cur = [(s, [])]
            for l in ls:
                cur = [(s3, bits + [b]) for s2, bits in cur for s3, b in getbit(s2, l, w, p)]
            for s2, bits in cur:
                v = f(*bits)
                o2 = dict(o)
                if v is not None:
                    o2[p] = v
                nxt.append((s2, o2))
        res = nxt
    return res


def and3(a, b):
    if a is False or b is False:
        return False
    if a is True and b is True:
        return True
    return None


def or3(a, b):
    if a is True or b is True:
        return True
    if a is False and b is False:
        return False
    return None


def xor3(a, b):
    return None if a is None or b is None else a != b


def not3(a):
    return None if a is None else not a


def single(st, l):
    i = info_of(st, l)
    if i and 'ones' in i:
        a, b = i['ones']
        if b.sub(a) == Lin(1):
            return a
    return None


def nsingle(st, l):
    """position of the only cleared bit"""
    i = info_of(st, l)
    if i and 'nones' in i:
        a, b = i['nones']
        if b.sub(a) == Lin(1):
            return a
    return None


def hib_of(st, l):
    """bits at and above this position are zero"""
    i = info_of(st, l) or {}
    h = i.get('hib', 128)
    u = st.upper(l)
    if u < HALF:
        h = min(h, max(u, 0).bit_length())
    return h


def op_and(st, x, y, w):
    if not x.t and not y.t:
        return [(st, Lin(x.k & y.k))]
    if not x.t:
        x, y = y, x
    if not y.t:
        if y.k == 0:
            return [(st, y)]
        if y.k == FULL[w]:
            return [(st, x)]
    if x == y:
        return [(st, x)]
    for p, q in ((x, y), (y, x)):
        b = q.sub(p)
        if not b.t and b.k == -1:
            return clear_lowest(st, p, w)
    for p, q in ((x, y), (y, x)):
        s = nsingle(st, q)
        if s is not None and p.t:
            t = st.memo.get(('tz', p, w))
            if t is not None and st.is_eq(t.sub(s)):
                return clear_lowest(st, p, w)
            out = []
            for s2, b in getbit(st, p, w, s):
                if b is not True:
                    out.append((s2.copy() if b is None else s2, p))
                if b is False:
                    continue
                s3 = s2
                if b is None:
                    if not s3.assume_le(p.scale(-1).addk(1)):
                        continue
                for s4, o in obs_all(s3, w, (p, q), and3):
                    ip = info_of(s4, p) or {}
                    info = {'obs': o, 'pcd': (p, Lin(-1))}
                    for kk in ('hib', 'lowz', 'zat'):
                        if kk in ip:
                            info[kk] = ip[kk]
                    r = mk(s4, w, info, hi=s4.upper(p))
                    s4.assume_le(r.sub(p).addk(1))
                    out.append((s4, r))
            return out
    for p, q in ((x, y), (y, x)):
        s = single(st, q)
        if s is not None and (p.t or not q.t or True):
            out = []
            if not info_of(st, p):
                # plain number: known range may decide low bit tests only for masks
                pass
            for s2, b in getbit(st, p, w, s):
                if b is True:
                    out.append((s2, q))
                elif b is False:
                    out.append((s2, Lin(0)))
                else:
                    s3 = s2.copy()
                    out.append((s2, q))
                    out.append((s3, Lin(0)))
            return out
    out = []
    for s2, o in obs_all(st, w, (x, y), and3):
        ix, iy = info_of(s2, x) or {}, info_of(s2, y) or {}
        info = {'obs': o}
        h = [i['hib'] for i in (ix, iy) if 'hib' in i]
        if h:
            info['hib'] = min(h)
        lz = [i['lowz'] for i in (ix, iy) if 'lowz' in i]
        for i in (ix, iy):
            if 'nones' in i and i['nones'][0] == Lin(0):
                lz.append(i['nones'][1])
        best = None
        for q in lz:
            if best is None or s2.is_le(best.sub(q)):
                best = q
        if best is not None:
            info['lowz'] = best
        z = tuple(ix.get('zat', ())) + tuple(iy.get('zat', ()))
        if z:
            info['zat'] = z
        us = [s2.upper(x), s2.upper(y)]
        # conjunction of two runs
        if 'ones' in ix and 'ones' in iy:
            info.pop('ones', None)
        out.append((s2, mk(s2, w, info, hi=min(us))))
    return out


def clear_lowest(st, x, w):
    """x & (x-1)"""
    out = []
    for s, t in op_tz(st, x, w):
        if s.is_eq(x):
            out.append((s, Lin(0)))
            continue
        res = [(s, {})]
        for p in trackers(s, w):
            nxt = []
            for s2, o in res:
                for s3, b in getbit(s2, x, w, p):
                    for s4, sg in _triple(s3, t, p):
                        o2 = dict(o)
                        if sg == 0:
                            o2[p] = False
                        elif b is not None:
                            o2[p] = b
                        nxt.append((s4, o2))
            res = nxt
        for s2, o in res:
            info = {'obs': o, 'lowz': t.addk(1), 'pcd': (x, Lin(-1))}
            ix = info_of(s2, x) or {}
            info['hib'] = hib_of(s2, x)
            if 'zat' in ix:
                info['zat'] = ix['zat']
            r = mk(s2, w, info)
            pc = s2.memo.get(('pc', x, w))
            if pc is not None:
                p1, p0 = s2.split(('le', pc.addk(-1)))
                for q in p1:
                    if q.assume_le(r):
                        out.append((q, Lin(0)))
                for q in p0:
                    if q.assume_le(Lin(1).sub(r)):
                        out.append((q, r))
            else:
                out.append((s2, r))
    return out


def op_or(st, x, y, w):
    if not x.t and not y.t:
        return [(st, Lin(x.k | y.k))]
    if not x.t:
        x, y = y, x
    if not y.t:
        if y.k == 0:
            return [(st, x)]
        if y.k == FULL[w]:
            return [(st, y)]
    if x == y:
        return [(st, x)]
    out = []
    for p, q in ((x, y), (y, x)):
        s = single(st, q)
        if s is not None and p.t:
            for s2, b in getbit(st, p, w, s):
                if b is not False:
                    s5 = s2.copy() if b is None else s2
                    if s5.assume_le(p.scale(-1).addk(1)):
                        out.append((s5, p))
                if b is True:
                    continue
                for s4, o in obs_all(s2, w, (p, q), or3):
                    ip = info_of(s4, p) or {}
                    info = {'obs': o, 'pcd': (p, Lin(1)), 'hib': max(hib_of(s4, p), hib_of(s4, q))}
                    r = mk(s4, w, info, lo=max(s4.lower(p) + 1, s4.lower(q), 1))
                    s4.assume_le(p.sub(r).addk(1))
                    s4.assume_le(q.sub(r))
                    out.append((s4, r))
            return out
    for s2, o in obs_all(st, w, (x, y), or3):
        ix, iy = info_of(s2, x) or {}, info_of(s2, y) or {}
        info = {'obs': o}
        info['hib'] = max(hib_of(s2, x), hib_of(s2, y))
        lo = max(s2.lower(x), s2.lower(y), 0)
        out.append((s2, mk(s2, w, info, lo=lo)))
    return out


def op_xor(st, x, y, w):
    if not x.t and not y.t:
        return [(st, Lin(x.k ^ y.k))]
    if x == y:
        return [(st, Lin(0))]
    if not x.t:
        x, y = y, x
    if not y.t and y.k == 0:
        return [(st, x)]
    if not y.t and y.k == FULL[w]:
        return op_not(st, x, w)
    out = []
    for s2, o in obs_all(st, w, (x, y), xor3):
        info = {'obs': o, 'hib': max(hib_of(s2, x), hib_of(s2, y))}
        out.append((s2, mk(s2, w, info)))
    return out


def op_not(st, x, w):
    if not x.t:
        return [(st, Lin(FULL[w] & ~x.k))]
    i = info_of(st, x) or {}
    if 'ones' in i or 'nones' in i:
        k = 'nones' if 'ones' in i else 'ones'
        r = mk(st, w, {k: i['ones' if k == 'nones' else 'nones']})
        return [(st, r)]
    return [(s2, mk(s2, w, {'obs': o})) for s2, o in obs_all(st, w, (x,), not3)]


def op_shl(st, x, s, w):
    """x << s with s < w"""
    if not x.t and not s.t:
        return [(st, Lin((x.k << s.k) & FULL[w]))]
    if not s.t and s.k == 0:
        return [(st, x)]
    i = info_of(st, x)
    if i and 'ones' in i:
        a, b = i['ones']
        out = []
        fit, over = st.split(('le', b.add(s).addk(-w)))
        for q in fit:
            out.append((q, _ones(q, a.add(s), b.add(s), w)))
        for q in over:
            ins, gone = q.split(('le', a.add(s).addk(1 - w)))
            out += [(r, _ones(r, a.add(s), Lin(w), w)) for r in ins]
            out += [(r, Lin(0)) for r in gone]
        return out
    res = [(st, {})]
    for p in trackers(st, w):
        nxt = []
        for s1, o in res:
            lo, ge = s1.split(('le', p.sub(s).addk(1)))
            for q in lo:
                o2 = dict(o)
                o2[p] = False
                nxt.append((q, o2))
            for q in ge:
                for q2, b in getbit(q, x, w, p.sub(s)):
                    o2 = dict(o)
                    if b is not None:
                        o2[p] = b
                    nxt.append((q2, o2))
        res = nxt
    return [(q, mk(q, w, {'obs': o, 'lowz': s})) for q, o in res]


def _ones(st, a, b, w):
    if not a.t and not b.t:
        return Lin(((1 << b.k) - (1 << a.k)) if b.k > a.k else 0)
    lo = 1 if st.is_le(a.sub(b).addk(1)) else 0
    hi = None
    ub = st.upper(b)
    if ub < w:
        hi = (1 << max(ub, 0)) - 1
    return mk(st, w, {'ones': (a, b)}, lo=lo, hi=hi)


def below_bit(st, r, w):
    """(1 << a) - 1 as a run of ones"""
    b = r.base()
    if b is not None and b[1] == -1:
        i = info_of(st, r)
        if i and 'ones' in i:
            return _ones(st, i['ones'][0], i['ones'][1], w)
    return r


def op_shr(st, x, s, w):
    if not x.t and not s.t:
        return [(st, Lin(x.k >> s.k))]
    if not s.t and s.k == 0:
        return [(st, x)]
    i = info_of(st, x) or {}
    if 'ones' in i:
        a, b = i['ones']
        out = []
        le, gt = st.split(('le', s.sub(a)))
        out += [(q, _ones(q, a.sub(s), b.sub(s), w)) for q in le]
        for q in gt:
            ins, gone = q.split(('le', s.sub(b)))
            out += [(r, _ones(r, Lin(0), b.sub(s), w)) for r in ins]
            out += [(r, Lin(0)) for r in gone]
        return out
    info = {'shr': (x, s)}
    out = []
    for s2, o in obs_all_shift(st, w, x, s):
        d = dict(info)
        d['obs'] = o
        hi = s2.upper(x)
        if not s.t:
            hi >>= s.k
        m = mk(s2, w, d, hi=hi)
        # x != 0 and tz(x) == s  ->  result has bit 0
        t = s2.memo.get(('tz', x, w))
        if t is not None and s2.is_eq(t.sub(s)):
            s2.assume_le(Lin(1).sub(m))
        out.append((s2, m))
    return out


def obs_all_shift(st, w, x, s):
    # bits of the shifted value at tracked positions are rarely needed: resolved through 'shr' on demand
    return [(st, {})]


def op_tz(st, x, w):
    if not x.t:
        c = x.k
        return [(st, Lin((c & -c).bit_length() - 1 if c else w))]
    m = st.memo.get(('tz', x, w))
    if m is not None:
        return [(st, m)]
    out = []
    zero, nz = st.split(('le', x))
    out += [(s, Lin(w)) for s in zero]
    for s in nz:
        i = info_of(s, x) or {}
        if 'ones' in i:
            out.append((s, i['ones'][0]))
            continue
        hib = min(i.get('hib', w), w)
        u = s.upper(x)
        if 0 < u < 1 << w:
            hib = min(hib, int(u).bit_length())
        t = s.sym(0, hib - 1)
        s.memo[('tz', x, w)] = t
        if 'lowz' in i and not s.assume_le(i['lowz'].sub(t)):
            continue
        cur = [s]
        for z in i.get('zat', ()):
            cur = [q for c in cur for q in c.assume(('ne', t.sub(z)))]
        for p in trackers(s, w):
            if not tracked(s, x, w, p):
                continue
            nxt = []
            for q in cur:
                o = (info_of(q, x) or {}).get('obs', {}).get(p)
                pc = q.memo.get(('pc', x, w))
                for q2, sg in _triple(q, t, p):
                    if sg == 0:
                        if o is False:
                            continue
                        if o is None:
                            setobs(q2, x, p, True)
                    elif sg > 0:
                        if o is True:
                            continue
                        if o is None:
                            setobs(q2, x, p, False)
                    else:
                        if o is True and pc is not None:
                            # a second bit is set: at least two bits
                            if not q2.assume_le(Lin(2).sub(pc)):
                                continue
                        elif o is None and pc is not None and q2.is_le(pc.addk(-1)):
                            setobs(q2, x, p, False)
                    nxt.append(q2)
            cur = nxt
        out += [(q, t) for q in cur]
    return out


def op_trailing_ones(st, x, w):
    if not x.t:
        c = x.k
        n = 0
        while (c >> n) & 1:
            n += 1
        return [(st, Lin(n))]
    m = st.memo.get(('to', x, w))
    if m is not None:
        return [(st, m)]
    i = info_of(st, x) or {}
    src, amt = (x, Lin(0))
    if 'shr' in i:
        src, amt = i['shr']
    isrc = info_of(st, src) or {}
    if 'ones' in i:
        a, b = i['ones']
        z, nz = st.split(('le', a))
        return [(s, b) for s in z] + [(s, Lin(0)) for s in nz]
    st = st.copy()
    if amt.t:
        # the end of the run is the variable: it stays comparable with other positions
        r = st.sym(0, w).sub(amt)
        if not st.assume_le(r.scale(-1)):
            return []
    else:
        r = st.sym(0, w)
    st.memo[('to', x, w)] = r
    if not st.assume_le(r.add(amt).addk(-w)):
        return []
    t = st.memo.get(('tz', src, w))
    if t is not None and st.is_eq(t.sub(amt)) and st.is_le(Lin(1).sub(src)):
        if not st.assume_le(Lin(1).sub(r)):
            return []
    cur = [st]
    end = amt.add(r)
    for p in trackers(st, w):
        if not tracked(st, src, w, p):
            continue
        nxt = []
        for q in cur:
            o = (info_of(q, src) or {}).get('obs', {}).get(p)
            if not src.t:
                nxt.append(q)
                continue
            lo, ge = q.split(('le', p.sub(amt).addk(1)))
            nxt += lo
            for q1 in ge:
                ins, rest = q1.split(('le', p.sub(end).addk(1)))
                for q2 in ins:
                    if o is False:
                        continue
                    if o is None:
                        setobs(q2, src, p, True)
                    nxt.append(q2)
                for q2 in rest:
                    at, aft = q2.split(('le', p.sub(end)))
                    for q3 in at:
                        if o is True:
                            continue
                        if o is None:
                            setobs(q3, src, p, False)
                        nxt.append(q3)
                    nxt += aft
        cur = nxt
    s = src.sym()
    if s is not None:
        for q in cur:
            d = dict(q.info.get(s) or {})
            d['zat'] = tuple(d.get('zat', ())) + (end,)
            q.info[s] = d
    return [(q, r) for q in cur]


def op_popcount(st, x, w):
    if not x.t:
        return [(st, Lin(bin(x.k).count('1')))]
    m = st.memo.get(('pc', x, w))
    if m is not None:
        if st.lower(x) >= 1 and st.lower(m) < 1:
            st = st.copy()
            if not st.assume_le(Lin(1).sub(m)):
                return []
        if st.upper(x) <= 0:
            return [(st, Lin(0))]
        return [(st, m)]
    i = info_of(st, x) or {}
    if 'ones' in i:
        a, b = i['ones']
        return [(st, b.sub(a))]
    if 'pcd' in i:
        out = []
        for s, n in op_popcount(st, i['pcd'][0], w):
            r = n.add(i['pcd'][1])
            if not s.assume_le(r.scale(-1)):
                continue
            a, b = s.split(('le', r))
            for q in a:
                if q.assume_le(x):
                    out.append((q, r))
            for q in b:
                if q.assume_le(Lin(1).sub(x)):
                    q.memo[('pc', x, w)] = r
                    out.append((q, r))
        return out
    zero, nz = st.split(('le', x))
    out = [(s, Lin(0)) for s in zero]
    for s in zero:
        s.memo[('pc', x, w)] = Lin(0)
    for s in nz:
        i = info_of(s, x) or {}
        pc = s.sym(1, min(hib_of(s, x), w))
        s.memo[('pc', x, w)] = pc
        cur = [s]
        t = s.memo.get(('tz', x, w))
        if t is not None:
            for p in trackers(s, w):
                o = i.get('obs', {}).get(p)
                if o is True:
                    nxt = []
                    for q in cur:
                        for q2, sg in _triple(q, t, p):
                            if sg < 0 and not q2.assume_le(Lin(2).sub(pc)):
                                continue
                            nxt.append(q2)
                    cur = nxt
        out += [(q, pc) for q in cur]
    return out


def op_lz(st, x, w):
    """leading zeros"""
    if not x.t:
        return [(st, Lin(w - x.k.bit_length()))]
    zero, nz = st.split(('le', x))
    out = [(s, Lin(w)) for s in zero]
    for s in nz:
        i = info_of(s, x) or {}
        if 'ones' in i:
            out.append((s, Lin(w).sub(i['ones'][1])))
            continue
        h = s.sym(0, min(i.get('hib', w), w) - 1)
        cur = [s]
        for p in trackers(s, w):
            nxt = []
            for q in cur:
                o = (info_of(q, x) or {}).get('obs', {}).get(p)
                for q2, sg in _triple(q, h, p):
                    if sg < 0 and o is True:
                        continue
                    if sg == 0 and o is False:
                        continue
                    if o is None and sg <= 0:
                        setobs(q2, x, p, sg == 0)
                    nxt.append(q2)
            cur = nxt
        out += [(q, Lin(w - 1).sub(h)) for q in cur]
    return out


def const_consistent(st, x, c, w):
    """after x == c: the tracked bits must agree: list of states"""
    i = info_of(st, x)
    if not i or not i.get('obs'):
        return [st]
    cur = [st]
    for p, v in i['obs'].items():
        nxt = []
        for s in cur:
            for s2, b in getbit(s, Lin(c), w, p):
                if b == v:
                    nxt.append(s2)
        cur = nxt
    return cur
