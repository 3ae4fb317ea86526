"""Constant memory: decodes constants, reads at symbolic offsets, category tables as summarised arrays."""
import numpy as np
from dom import Lin, L, K, INF, HALF, fresh_id
from state import Seg, Arr, UNIT, Ctx
import arrays
from arrays import CV, KV

MAXAGG = 64


class CMem:
    def __init__(self, prog, ref):
        self.p = prog
        self.ref = ref
        self.rowcache = {}
        self.bitcache = {}
        self.extra = {}
        self.anons = {}
        self.rows_seen = {}

    # ------------------------------------------------------------ raw memory
    def mem(self, aid):
        if isinstance(aid, int) and aid >= 0:
            return self.p.mem(aid)
        return self.extra.get(aid)

    def anon(self, data, ptrs):
        key = (data, tuple(sorted(ptrs.items())))
        aid = self.anons.get(key)
        if aid is None:
            aid = self.anons[key] = -1 - len(self.anons)
            self.extra[aid] = (data, ptrs)
        return aid

    def uint(self, aid, off, n):
        m = self.mem(aid)
        if m is None or off < 0 or off + n > len(m[0]):
            return None
        return int.from_bytes(m[0][off:off + n], "little")

    def size(self, t):
        return self.p.types[t].get("size")

    # ------------------------------------------------------------ constants
    def const(self, t, a):
        data = bytes.fromhex(a["b"]) if isinstance(a["b"], str) else a["b"]
        aid = self.anon(data, dict((o, p) for o, p in a["p"]))
        return self.decode(aid, 0, t)

    def zst(self, t):
        ty = self.p.types[t]
        k = ty["k"]
        if k == "fndef":
            return ('fn', ty.get("inst"))
        if k in ("tuple", "closure"):
            return ('t', tuple(self.zst(f) for f in ty.get("f", ()))) if k == "tuple" else UNIT
        if k == "adt":
            if ty["a"] == "struct":
                return ('t', tuple(self.zst(f[1]) for f in ty["v"][0]["f"]))
            if ty["a"] == "enum" and len(ty["v"]) == 1:
                if self.p.is_unit_enum(t):
                    return ('d', Lin(0))
                return ('e', 0, tuple(self.zst(f[1]) for f in ty["v"][0]["f"]))
        if k == "array":
            return ('t', ())
        return UNIT

    def field_off(self, t, i, variant):
        ty = self.p.types[t]
        if variant is not None and "voff" in ty:
            return ty["voff"][variant][i]
        return ty["off"][i]

    def tag(self, aid, off, ty):
        """variant index of an enum in memory"""
        if "enc" not in ty:
            return ty.get("single", 0)
        tg = ty["tag"]
        n = 8 if "Pointer" in tg else int(tg.split("length: I")[1].split(",")[0]) // 8
        o = off + ty["off"][ty["tagf"]]
        v = self.uint(aid, o, n)
        if v is None:
            return None
        if ty["enc"] == "direct":
            for i, x in enumerate(ty["v"]):
                if x["d"] & ((1 << 8 * n) - 1) == v:
                    return i
            return None
        unt, lo, hi, start = ty["enc"]
        if "Pointer" in tg and o in self.mem(aid)[1]:
            return unt
        d = (v - start) & ((1 << 8 * n) - 1)
        if d <= hi - lo:
            return lo + d
        return unt

    def decode(self, aid, off, t):
        ty = self.p.types[t]
        k = ty["k"]
        m = self.mem(aid)
        if m is None:
            return ('T', 'constant memory')
        if ty.get("size") == 0 and k != "array":
            return self.zst(t)
        if k == "int":
            n = ty["w"] // 8
            v = self.uint(aid, off, n)
            if v is None or off in m[1]:
                return ('T', 'integer constant')
            if ty["s"] and v >> (ty["w"] - 1):
                v -= 1 << ty["w"]
            return Lin(v)
        if k == "char":
            return Lin(self.uint(aid, off, 4))
        if k == "bool":
            return bool(self.uint(aid, off, 1))
        if k in ("ref", "ptr"):
            e = self.p.types[ty["e"]]
            po = self.uint(aid, off, 8)
            tgt = m[1].get(off)
            if e["k"] in ("slice", "str"):
                n = self.uint(aid, off + 8, 8)
                if e["k"] == "str":
                    if not n:
                        return ('str', b'')
                    d = self.mem(tgt)
                    return ('str', bytes(d[0][po:po + n]))
                return ('cs', tgt if tgt is not None else self.anon(b'', {}), Lin(po if tgt is not None else 0), Lin(n), e_id_slice(self.p, ty))
            if tgt is None:
                if e.get("size") == 0:
                    return ('r', ('V', self.zst(ty["e"])))
                return ('T', 'dangling pointer')
            if e["k"] == "dyn":
                return ('T', 'dyn constant')
            if "fn" in self.p.allocs[tgt] if isinstance(tgt, int) else False:
                return ('fn', self.p.allocs[tgt]["fn"])
            return ('r', ('C', tgt, Lin(po), ty["e"]))
        if k == "fnptr":
            tgt = m[1].get(off)
            if tgt is not None and isinstance(tgt, int):
                a = self.p.allocs[tgt]
                if "fn" in a:
                    return ('fn', a["fn"])
            return ('T', 'function pointer')
        if k == "tuple":
            return ('t', tuple(self.decode(aid, off + o, f) for o, f in zip(ty["off"], ty["f"])))
        if k == "array":
            if ty["len"] > MAXAGG:
                return ('cv', aid, Lin(off), t)
            return ('t', tuple(self.decode(aid, off + i * ty["stride"], ty["e"]) for i in range(ty["len"])))
        if k == "adt":
            if ty["a"] == "struct":
                fs = ty["v"][0]["f"]
                if not fs:
                    return UNIT
                return ('t', tuple(self.decode(aid, off + o, f[1]) for o, f in zip(ty["off"], fs)))
            if ty["a"] == "enum":
                v = self.tag(aid, off, ty)
                if v is None:
                    return ('T', 'enum constant')
                if self.p.is_unit_enum(t):
                    return ('d', Lin(v))
                fs = ty["v"][v]["f"]
                vo = ty["voff"][v] if "voff" in ty else ty["off"]
                return ('e', v, tuple(self.decode(aid, off + o, f[1]) for o, f in zip(vo, fs)))
        return ('T', 'constant of kind %s' % k)

    # ------------------------------------------------------------ reads
    def bases(self, st, aspec):
        """feasible [(version or None, alloc, base offset)]"""
        if isinstance(aspec, tuple) and aspec[0] == 'FM':
            lo, hi = st.lower(L(Ctx.VER)), st.upper(L(Ctx.VER))
            return [(v, a, o) for v, (a, o) in aspec[1] if lo <= v <= hi]
        if isinstance(aspec, tuple) and aspec[0] == 'RD':
            return None
        v = None
        if st.z.has(Ctx.VER):
            lo, hi = st.lower(L(Ctx.VER)), st.upper(L(Ctx.VER))
            if lo == hi:
                v = int(lo)
        return [(v, aspec, 0)]

    def offsets(self, st, off, limit=4096):
        """feasible values of a symbolic offset (stride taken from the coefficients)"""
        if not off.t:
            return [off.k]
        lo, hi = st.lower(off), st.upper(off)
        if lo <= -HALF or hi >= HALF:
            return None
        import math
        g = 0
        for _, c in off.t:
            g = math.gcd(g, abs(c))
        lo = int(lo) + (-(int(lo) - off.k)) % g
        n = (int(hi) - lo) // g + 1
        if n > limit:
            return None
        return list(range(lo, int(hi) + 1, g))

    def rd(self, st, aspec):
        """feasible rows of a pointer read: [(version, idx offset, alloc, off, len)]"""
        out = []
        if isinstance(aspec, tuple) and aspec[0] == 'RD':
            bs = self.bases(st, aspec[1])
            offs = self.offsets(st, aspec[2])
            if bs is None or offs is None:
                return None
            for v, a, b in bs:
                m = self.mem(a)
                if m is None:
                    return None
                for o in offs:
                    tgt = m[1].get(b + o)
                    n = self.uint(a, b + o + 8, 8)
                    if n is None:
                        return None
                    if tgt is None:
                        tgt, po = self.anon(b'', {}), 0
                    else:
                        po = self.uint(a, b + o, 8)
                    out.append((v, o, tgt, po, n))
            return out
        return None

    def read(self, M, st, loc):
        _, aspec, off, t = loc
        ty = self.p.types[t]
        if isinstance(aspec, tuple) and aspec[0] == 'RD':
            # element of a row read through a symbolic pointer
            sl = self.as_array(M, st, ('cs', aspec, Lin(0), None, t))
            sz = ty["size"]
            out = []
            for s, v in sl:
                if v is None or any(c % sz for _, c in off.t) or off.k % sz:
                    out.append((s, ('T', 'element of a symbolic row')))
                    continue
                ix = Lin(off.k // sz, tuple((q, c // sz) for q, c in off.t))
                out.extend(M.load(s, ('A', v[1], v[2].add(ix), ())))
            return out
        if not off.t and not isinstance(aspec, tuple):
            return [(st, self.decode(aspec, off.k, t))]
        if ty.get("size") == 0:
            return [(st, self.zst(t))]
        k = ty["k"]
        if k in ("tuple",) or (k == "adt" and ty["a"] == "struct"):
            fs = ty["f"] if k == "tuple" else [f[1] for f in ty["v"][0]["f"]]
            acc = [(st, [])]
            for o, f in zip(ty["off"], fs):
                acc = [(s2, l + [v]) for s, l in acc for s2, v in self.read(M, s, ('C', aspec, off.addk(o), f))]
            return [(s, ('t', tuple(l))) for s, l in acc]
        if k == "array":
            if ty["len"] > MAXAGG:
                return [(st, ('cv', aspec, off, t))]
            acc = [(st, [])]
            for i in range(ty["len"]):
                acc = [(s2, l + [v]) for s, l in acc for s2, v in self.read(M, s, ('C', aspec, off.addk(i * ty["stride"]), ty["e"]))]
            return [(s, ('t', tuple(l))) for s, l in acc]
        bs = self.bases(st, aspec)
        offs = self.offsets(st, off)
        if bs is None or offs is None:
            return [(st, M.unknown(st, t, 'constant read at unbounded offset')) if not st.add_taint('constant read at unbounded offset') else None]
        vals = {}
        for v, a, b in bs:
            for o in offs:
                vals[(v, o)] = self.decode(a, b + o, t)
        return self.select(M, st, aspec, off, t, vals, bs, offs)

    def select(self, M, st, aspec, off, t, vals, bs, offs):
        ty = self.p.types[t]
        vs = list(vals.values())
        if not vs:
            return []
        if all(v == vs[0] for v in vs[1:]):
            return [(st, vs[0])]
        k = ty["k"]
        if k in ("ref", "ptr") and self.p.types[ty["e"]]["k"] == "slice":
            key = ('RD', aspec, off)
            ns = [v[3].k for v in vals.values() if v[0] == 'cs']
            mk = ('rdlen', key)
            n = st.memo.get(mk)
            if n is None:
                n = Lin(ns[0]) if min(ns) == max(ns) else st.sym(min(ns), max(ns))
                st.memo[mk] = n
            return [(st, ('cs', key, Lin(0), n, e_id_slice(self.p, ty)))]
        if k in ("int", "char") or (k == "adt" and self.p.is_unit_enum(t)):
            wrap = (lambda l: l) if k in ("int", "char") else (lambda l: ('d', l))
            raw = {q: (v if isinstance(v, Lin) else v[1] if v[0] == 'd' else None) for q, v in vals.items()}
            if all(isinstance(v, Lin) for v in raw.values()):
                # linear in the offset
                if len(offs) >= 2 and off.t:
                    g = offs[1] - offs[0]
                    o0 = offs[0]
                    v0 = raw[(bs[0][0], o0)].k
                    d = raw[(bs[0][0], offs[1])].k - v0
                    if all(raw[(b[0], o)].k == v0 + d * i for b in bs for i, o in enumerate(offs)) and all(c * d % g == 0 for _, c in off.t) and d:
                        kk = v0 + (off.k - o0) * d // g if (off.k - o0) * d % g == 0 else None
                        if kk is not None:
                            return [(st, wrap(Lin(kk, tuple((s, c * d // g) for s, c in off.t))))]
                import bits
                w = ty.get("w")
                if k == "int" and bits.trackers(st, w) and len(offs) > 1:
                    r = self.maskword(M, st, off, w, raw, bs, offs)
                    if r is not None:
                        return r
                elif k == "int" and w == 64 and any(tw == 64 for tw, _ in st.glob.get('trk', ())):
                    # a word of a mask that does not stand for the observed code point
                    nums = [v.k for v in raw.values()]
                    return [(st, bits.mk(st, w, {}, min(nums), max(nums)))]
        # fork over the distinct offsets
        if len(bs) == 1 and len(offs) <= 40:
            out = []
            by = {}
            for o in offs:
                by.setdefault(repr(vals[(bs[0][0], o)]), []).append(o)
            for o in offs:
                s = st.copy()
                if s.assume_le(off.addk(-o)) and s.assume_le(off.scale(-1).addk(o)):
                    out.append((s, vals[(bs[0][0], o)]))
            return out
        if len(bs) > 1:
            out = []
            for v, a, b in bs:
                if v is None:
                    continue
                s = st.copy()
                if s.assume_le(L(Ctx.VER).addk(-v)) and s.assume_le(L(Ctx.VER).scale(-1).addk(v)):
                    out.extend(self.read(M, s, ('C', a, off.addk(b), t)))
            return out
        st.add_taint('constant table read')
        if k == "int":
            nums = [v.k for v in vals.values() if isinstance(v, Lin)]
            return [(st, st.sym(min(nums), max(nums)))]
        return [(st, M.unknown(st, t, 'constant table read'))]

    # ------------------------------------------------------------ membership masks
    def maskword(self, M, st, off, w, raw, bs, offs):
        """word of a membership mask table read at a category-dependent offset: fix the tracked bits"""
        import bits
        if self.ref is None or not st.z.has(Ctx.KC) or not st.z.has(Ctx.C):
            return None
        trk = [p for p in bits.trackers(st, w) if any(s == Ctx.C for s, _ in p.t)]
        if not trk or len(offs) < 2 or len(bs) != 1 or bs[0][0] is None:
            return None
        ver = bs[0][0]
        g = offs[1] - offs[0]
        cats = self.ref.cat.get(ver)
        if cats is None:
            return None
        states = [(st, {})]
        for p in trk:
            b = p.base()
            if b is None or b[0] != Ctx.C:
                return None
            k = b[1]
            nxt = []
            for s, obs in states:
                # position outside the word: bit is 0
                ins, out1 = s.split(('le', p.scale(-1)))
                for q in out1:
                    nxt.append((q, {**obs, p: False}))
                for q in ins:
                    ins2, out2 = q.split(('le', p.addk(1 - w)))
                    for q2 in out2:
                        nxt.append((q2, {**obs, p: False}))
                    for q2 in ins2:
                        clo, chi = int(q2.lower(CV)), int(q2.upper(CV))
                        sets = {}
                        for o in offs:
                            sets[o] = self.bitset(ver, raw[(ver, o)].k, k, w, clo, chi)
                        if w == 64 and any(r is None for r in sets.values()):
                            # not the word that stands for the observed code point
                            nxt.append((q2, obs))
                            continue
                        nxt.extend((q3, {**obs, p: v} if v is not None else obs) for q3, v in self.fork_sets(q2, off, offs, sets))
            states = nxt
        out = []
        nums = [v.k for v in raw.values()]
        for s, obs in states:
            l = bits.mk(s, w, {'obs': obs}, min(nums), max(nums))
            if any(v for v in obs.values()):
                s.assume_le(l.scale(-1).addk(1))
            out.append((s, l))
        return out

    def bitset(self, ver, word, k, w, clo, chi):
        """set S of categories with: bit (C+k) of word set <=> cat(C) in S, for C in [clo,chi]; None if not expressible"""
        key = (ver, word, k, w, clo, chi)
        r = self.bitcache.get(key, 0)
        if r != 0:
            return r
        cats = self.ref.cat[ver]
        yes, no = set(), set()
        for c in range(clo, chi + 1):
            (yes if (word >> (c + k)) & 1 else no).add(int(cats[c]))
        r = None if yes & no else (frozenset(yes), frozenset(no))
        self.bitcache[key] = r
        return r

    def fork_sets(self, st, off, offs, sets):
        """fork on [membership of K in the set selected by off]: [(state, True/False/None)]
        sets: offset -> (yes set, no set) | None"""
        out = []
        if len(offs) == 1:
            r = sets[offs[0]]
            if r is None:
                return [(st, None)]
            return self.fork_in(st, r)
        g = offs[1] - offs[0]
        # regular tables: entry i <=> category i (+const)
        shift = None
        reg = True
        for i, o in enumerate(offs):
            r = sets[o]
            if r is None or len(r[0]) > 1:
                reg = False
                break
            if len(r[0]) == 1:
                d = next(iter(r[0])) - i
                if shift is None:
                    shift = d
                elif shift != d:
                    reg = False
                    break
        if reg and shift is None:
            return [(st, False)]
        if reg:
            # an entry with no 'yes' in range must not claim its category
            for i, o in enumerate(offs):
                if not sets[o][0] and (i + shift) in sets[o][1]:
                    reg = False
        if reg and all(c % g == 0 for _, c in off.t):
            ix = Lin((off.k - offs[0]) // g, tuple((s, c // g) for s, c in off.t)).addk(shift)
            eq, ne = st.split(('eq', ix.sub(KV)))
            return [(s, True) for s in eq] + [(s, False) for s in ne]
        for o in offs:
            s = st.copy()
            if s.assume_le(off.addk(-o)) and s.assume_le(off.scale(-1).addk(o)):
                out.extend(self.fork_sets(s, off, [o], sets))
        return out

    def fork_in(self, st, r):
        """fork on K in yes / K in no (other categories impossible here)"""
        yes, no = r
        if not yes:
            return [(st, False)]
        if not no:
            return [(st, True)]
        lo, hi = int(st.lower(KV)), int(st.upper(KV))
        y = [k for k in sorted(yes) if lo <= k <= hi]
        out = []
        if not y:
            return [(st, False)]
        if len(y) <= len([k for k in no if lo <= k <= hi]):
            cur = [st]
            for k in y:
                nx = []
                for s in cur:
                    eq, ne = s.split(('eq', KV.addk(-k)))
                    out += [(q, True) for q in eq]
                    nx += ne
                cur = nx
            out += [(s, False) for s in cur]
        else:
            cur = [st]
            for k in sorted(no):
                if not lo <= k <= hi:
                    continue
                nx = []
                for s in cur:
                    eq, ne = s.split(('eq', KV.addk(-k)))
                    out += [(q, False) for q in eq]
                    nx += ne
                cur = nx
            out += [(s, True) for s in cur]
        return out

    # ------------------------------------------------------------ interval rows
    def rowinfo(self, ver, a, off, n, clo, chi):
        key = (ver, a, off, n, clo, chi)
        r = self.rowcache.get(key)
        if r is not None:
            return r
        m = self.mem(a)
        arr = np.frombuffer(m[0], dtype="<u4", count=2 * n, offset=off).astype(np.int64).reshape(n, 2) if n else np.zeros((0, 2), dtype=np.int64)
        lo, hi = arr[:, 0], arr[:, 1]
        well = bool((lo <= hi).all())
        o = 0
        if n == 0 or (lo[1:] >= lo[:-1]).all():
            o = 1
            if well and (n < 2 or (lo[1:] >= hi[:-1] + 2).all()):
                o = 2
        r = {"well": well, "ord": o, "min": int(lo.min()) if n else 0, "max": int(hi.max()) if n else 0, "lomax": int(lo.max()) if n else 0, "himin": int(hi.min()) if n else 0, "n": n, "sets": None}
        if self.ref is not None and ver is not None and ver in self.ref.cat and well:
            d = np.zeros(0x110001, dtype=np.int32)
            np.add.at(d, np.minimum(lo, 0x110000), 1)
            np.add.at(d, np.minimum(hi + 1, 0x110000), -1)
            inr = (np.cumsum(d)[:0x110000] > 0)[clo:chi + 1]
            cats = self.ref.cat[ver][clo:chi + 1]
            yes = frozenset(np.unique(cats[inr]).tolist())
            no = frozenset(np.unique(cats[~inr]).tolist())
            r["sets"] = None if yes & no else (yes, no)
        self.rowcache[key] = r
        return r

    def as_array(self, M, st, v):
        """constant slice -> array object: [(state, ('s', aid, lo, hi) or None)]"""
        _, aspec, off, n, ety = v
        ek = M.ekind_ty(ety)
        isrd = isinstance(aspec, tuple) and aspec[0] == 'RD'
        if not isrd and not off.t and n is not None and not n.t and n.k <= 6:
            vals = [self.decode(aspec, off.k + i * self.size(ety), ety) for i in range(n.k)]
            key = ('row', aspec, off, n)
            if key not in st.arr:
                segs = tuple(Seg(Lin(i), Lin(i + 1), (('?', x, None),), single=True) for i, x in enumerate(vals))
                st.arr[key] = Arr(ek, n, segs)
            return [(st, ('s', key, Lin(0), n))]
        if ek != 'iv':
            if not isrd and not off.t and n is not None and not n.t and n.k <= 300:
                vals = [self.decode(aspec, off.k + i * self.size(ety), ety) for i in range(n.k)]
                key = ('row', aspec, off, n)
                if key not in st.arr:
                    segs = tuple(Seg(Lin(i), Lin(i + 1), (('?', x, None),), single=True) for i, x in enumerate(vals))
                    st.arr[key] = Arr(ek, n, segs)
                return [(st, ('s', key, Lin(0), n))]
            st.add_taint('constant slice')
            return [(st, None)]
        if isrd:
            base = 0
            if off.t or off.k:
                sz = self.size(ety)
                if any(c % sz for _, c in off.t) or off.k % sz:
                    st.add_taint('constant slice')
                    return [(st, None)]
            rows = self.rd(st, aspec)
            if rows is None:
                st.add_taint('constant slice')
                return [(st, None)]
        else:
            if off.t or n.t:
                st.add_taint('constant sub-slice')
                return [(st, None)]
            bs = self.bases(st, aspec)
            if bs is None:
                st.add_taint('constant slice')
                return [(st, None)]
            rows = [(b[0], 0, b[1], b[2] + off.k, n.k) for b in bs]
        key = ('row', aspec if isrd else (aspec, off), n if not isrd else None)
        if key in st.arr:
            A = st.arr[key]
            if isrd:
                sz = self.size(ety)
                lo = Lin(off.k // sz, tuple((q, c // sz) for q, c in off.t))
                return [(st, ('s', key, lo, lo.add(n) if n is not None else A.n))]
            return [(st, ('s', key, Lin(0), A.n))]
        hasC = st.z.has(Ctx.C)
        clo, chi = (int(max(0, st.lower(CV))), int(min(0x10FFFF, st.upper(CV)))) if hasC else (0, 0x10FFFF)
        infos = {}
        for r in rows:
            infos[r] = self.rowinfo(r[0], r[2], r[3], r[4], clo, chi)
            self.rows_seen[(r[0], r[2], r[3])] = r[4]
        if isrd:
            nn = st.memo.get(('rdlen', aspec))
            if nn is None:
                ns = [r[4] for r in rows]
                nn = Lin(ns[0]) if min(ns) == max(ns) else st.sym(min(ns), max(ns))
                st.memo[('rdlen', aspec)] = nn
        else:
            nn = n
        mn, mx = min(i["min"] for i in infos.values()), max(i["max"] for i in infos.values())
        lomax, himin = max(i["lomax"] for i in infos.values()), min(i["himin"] for i in infos.values())
        o = min(i["ord"] for i in infos.values())
        well = all(i["well"] for i in infos.values())
        out = []
        if not hasC:
            forks = [(st, 'U')]
        else:
            vers = {r[0] for r in rows}
            forks = []
            if len(vers) == 1 and all(i["sets"] is not None for i in infos.values()) or len(rows) == 1:
                offs = [r[1] for r in rows]
                sets = {r[1]: infos[r]["sets"] for r in rows}
                forks = self.fork_sets(st, aspec[2] if isrd else Lin(0), offs, sets)
            elif len(vers) == 1:
                offs = [r[1] for r in rows]
                sets = {r[1]: infos[r]["sets"] for r in rows}
                forks = self.fork_sets(st, aspec[2] if isrd else Lin(0), offs, sets)
            else:
                # several versions: the relation must hold in each
                idx = sorted({r[1] for r in rows})
                sets = {}
                for o2 in idx:
                    ss = [infos[r]["sets"] for r in rows if r[1] == o2]
                    if any(x is None for x in ss):
                        sets[o2] = None
                    else:
                        y = frozenset().union(*[x[0] for x in ss])
                        nset = frozenset().union(*[x[1] for x in ss])
                        sets[o2] = None if y & nset else (y, nset)
                forks = self.fork_sets(st, aspec[2] if isrd else Lin(0), idx, sets)
        for s, mem in forks:
            cl = []
            classes = ['U'] if mem == 'U' else (['B', 'C', 'A'] if mem is not False else ['B', 'A'])
            for c in classes:
                gid = fresh_id()
                z = s.Z()
                a, b = fresh_id(), fresh_id()
                z.new(a, mn, lomax, gid)
                z.new(b, himin, mx, gid)
                if well:
                    z.add(a, b, 0)
                la, lb = L(a), L(b)
                if c == 'B':
                    z.add(b, Ctx.C, -1)
                elif c == 'C':
                    z.add(a, Ctx.C, 0)
                    z.add(Ctx.C, b, 0)
                elif c == 'A':
                    z.add(Ctx.C, a, -1)
                cl.append((c, ('t', (la, lb)), gid))
            sg = arrays.drop_empty(s, Seg(Lin(0), nn, tuple(cl), must=(mem is True), ord=o))
            if s.dead or mem is True and 'C' not in sg.classes():
                continue
            if not sg.cl and not s.assume_le(nn):
                continue
            if mem is True:
                s.assume_le(Lin(1).sub(nn))
            s.arr[key] = Arr('iv', nn, (sg,))
            if isrd:
                sz = self.size(ety)
                lo = Lin(off.k // sz, tuple((q, c // sz) for q, c in off.t))
                out.append((s, ('s', key, lo, lo.add(n) if n is not None else nn)))
            else:
                out.append((s, ('s', key, Lin(0), nn)))
        return out


def e_id_slice(p, ty):
    return p.types[ty["e"]]["e"]
