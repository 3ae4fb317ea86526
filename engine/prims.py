"""Transfer functions for library primitives (Vec, slices, strings, ranges, integer intrinsics) and analysis intrinsics."""
import re
from dom import Lin, L, K, INF, HALF, ZERO, fresh_id
from state import Seg, Arr, UNIT, Ctx, f_not, show, vmap
import arrays
import bits
from arrays import CV, KV

NONE = ('e', 0, ())


def some(v):
    return ('e', 1, (v,))


INT = re.compile(r"^(?:core|std)::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)$")
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}

PANIC = re.compile(r"^(core|std|alloc)::(panicking::|rt::begin_panic|rt::panic|option::(unwrap|expect)_failed|result::unwrap_failed|slice::index::slice_\w*fail|"
                   r"slice::\w*fail|str::slice_error_fail|raw_vec::(capacity_overflow|handle_error)|alloc::handle_alloc_error|cell::panic_\w+|"
                   r"vec::Vec::<T, A>::\w+::assert_failed|slice::<impl \[T\]>::copy_from_slice_impl::len_mismatch_fail)")


class Prims:
    def __init__(self, M):
        self.M = M
        self.p = M.p
        self.tab = {}
        self.names = {}
        for k in dir(self):
            f = getattr(self, k)
            for nm in getattr(f, "_names", ()):
                self.tab[nm] = f
        self.misc = set()

    # ------------------------------------------------------------ dispatch
    def call(self, fr, st, c, vs, sp, atys, rty):
        if c.get("model"):
            return None
        name = c.get("rdef") or c.get("def")
        name = norm(name)
        f = self.tab.get(name)
        if f is None and c.get("def") != c.get("rdef"):
            f = self.tab.get('trait:' + norm(c.get("def") or ''))
            if f is not None and c.get("inst") is not None and not name.startswith(("std::", "<", "core::", "alloc::")):
                f = None
        if f is not None:
            r = f(Call(self, fr, st, c, vs, sp, atys, rty))
            if r is not None:
                return r
        m = INT.match(name)
        if m:
            r = self.intcall(fr, st, m.group(1), m.group(2), vs, sp)
            if r is not None:
                return r
        if PANIC.match(name):
            self.M.alarm("panic", name.split("::")[-1], fr, sp, st)
            return []
        if c.get("intr"):
            r = self.intrinsic(fr, st, c["intr"], vs, sp, c, rty)
            if r is not None:
                return r
        if name.startswith(("witness::v::", "pyo3::v::")):
            r = self.witness(fr, st, name.split("::v::", 1)[1], vs, sp, rty, c)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------ helpers
    def vec(self, st, ref):
        """reference to Vec -> [(st, aid)]"""
        out = []
        for s, v in self.M.load(st, ref[1]) if isinstance(ref, tuple) and ref[0] == 'r' else [(st, ref)]:
            if isinstance(v, tuple) and v[0] == 'r':
                out += self.vec(s, v)
            elif isinstance(v, tuple) and v[0] in ('v', 'a'):
                out.append((s, v[1]))
            else:
                s.add_taint("vector: %s" % (show(v)[:60],))
                out.append((s, None))
        return out

    def slices(self, st, v):
        """slice-like value -> [(st, ('s',..)|('cs',..)|None)]; constant slices of references stay constant"""
        if isinstance(v, tuple):
            if v[0] == 's':
                return [(st, v)]
            if v[0] == 'cs':
                if self.M.ekind_ty(v[4]) == 'iv':
                    return self.M.cm.as_array(self.M, st, v)
                return [(st, v)]
            if v[0] in ('v', 'a'):
                return [(st, ('s', v[1], Lin(0), st.arr[v[1]].n))]
            if v[0] == 'r':
                if v[1][0] == 'C':
                    ty = self.p.types[v[1][3]]
                    if ty["k"] == "array":
                        return self.slices(st, ('cs', v[1][1], v[1][2], Lin(ty["len"]), ty["e"]))
                out = []
                for s, x in self.M.load(st, v[1]):
                    if isinstance(x, tuple) and x[0] == 't':
                        out.append((s, self.M.array_ref(s, v[1], x)))
                    else:
                        out += self.slices(s, x)
                return out
            if v[0] == 't':
                aid = self.M.new_array_from(st, v[1])
                return [(st, ('s', aid, Lin(0), Lin(len(v[1]))))]
        st.add_taint("slice: %s" % (show(v)[:60],))
        return [(st, None)]

    def elem_ref(self, sl, i):
        """reference to element i (already in bounds) of a slice value"""
        if sl[0] == 's':
            return ('r', ('A', sl[1], sl[2].add(i), ()))
        sz = self.p.types[sl[4]]["size"]
        return ('r', ('C', sl[1], sl[2].add(i.scale(sz)), sl[4]))

    def slen(self, sl):
        return sl[3].sub(sl[2]) if sl[0] == 's' else sl[3]

    def sub(self, sl, a, b):
        if sl[0] == 's':
            return ('s', sl[1], sl[2].add(a), sl[2].add(b))
        sz = self.p.types[sl[4]]["size"]
        return ('cs', sl[1], sl[2].add(a.scale(sz)), b.sub(a), sl[4])

    def str_blen(self, st, v):
        if isinstance(v[1], bytes):
            return Lin(len(v[1]))
        if ('strval', v[1]) in st.memo:
            return Lin(len(st.memo[('strval', v[1])]))
        key = ('blen', v[1])
        n = st.arr[v[1]].n
        m = st.memo.get(('blen', n))
        if m is None:
            m = st.sym(0, 1 << 40)
            st.memo[('blen', n)] = m
            st.assume_le(n.sub(m))
        return m

    def pred(self, fr, st, cty, cv, args, sp):
        """call a predicate closure: [(st, formula)]"""
        return [(s, self.M.as_bool(s, v)) for s, v in self.M.call_closure(fr, st, cty, cv, args, sp)]

    # ------------------------------------------------------------ integers
    def intcall(self, fr, st, ity, f, vs, sp):
        M = self.M
        w = W[ity]
        signed = ity[0] == 'i'
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

        def I(k):
            return M.as_int(st, vs[k])
        if f in ("trailing_zeros", "count_ones", "leading_zeros", "trailing_ones", "count_zeros", "leading_ones") and not signed:
            x = I(0)
            if f == "trailing_zeros":
                return bits.op_tz(st, x, w)
            if f == "trailing_ones":
                return bits.op_trailing_ones(st, x, w)
            if f == "leading_zeros":
                return bits.op_lz(st, x, w)
            if f == "count_ones":
                return bits.op_popcount(st, x, w)
            if f == "count_zeros":
                return [(s, r.scale(-1).addk(w)) for s, r in bits.op_popcount(st, x, w)]
            return [(s2, r) for s, y in bits.op_not(st, x, w) for s2, r in bits.op_lz(s, y, w)]
        m = re.match(r"^(saturating|checked|wrapping|overflowing|unchecked)_(add|sub|mul|shl|shr|div|rem|next_power_of_two|neg)$", f)
        if m:
            mode, op = m.groups()
            x = I(0)
            y = I(1) if len(vs) > 1 else None
            if op in ("shl", "shr"):
                out = []
                if mode in ("wrapping", "unchecked"):
                    ok, bad = st.split(('le', y.addk(1 - w)))
                    for s in ok:
                        out += (bits.op_shl if op == "shl" else bits.op_shr)(s, x, y, w)
                    for s in bad:
                        s.add_taint("wrapping shift")
                        out.append((s, s.sym(lo, hi if hi < HALF else None)))
                    return out
                if mode in ("checked", "overflowing"):
                    ok, bad = st.split(('le', y.addk(1 - w)))
                    for s in ok:
                        for s2, r in (bits.op_shl if op == "shl" else bits.op_shr)(s, x, y, w):
                            out.append((s2, some(r) if mode == "checked" else ('t', (r, False))))
                    for s in bad:
                        if mode == "checked":
                            out.append((s, NONE))
                        else:
                            s.add_taint("overflowing shift")
                            out.append((s, ('t', (s.sym(lo, hi if hi < HALF else None), True))))
                    return out
                return None
            if op in ("add", "sub"):
                r = x.add(y) if op == "add" else x.sub(y)
                rs = [(st, r)]
            elif op == "mul":
                rs = M.mul(st, x, y, None)
            elif op in ("div", "rem") and mode == "checked":
                out = []
                z, nz = st.split(('eq', y))
                out += [(s, NONE) for s in z]
                for s in nz:
                    for s2, q, r in M.divrem(fr, s, x, y, None, sp):
                        out.append((s2, some(q if op == "div" else r)))
                return out
            else:
                return None
            out = []
            for s, r in rs:
                under, rest = s.split(('le', r.addk(1 - lo)))
                over, ok = [], []
                for q in rest:
                    if hi >= HALF:
                        ok.append(q)
                        continue
                    a, b = q.split(('le', Lin(hi + 1).sub(r)))
                    over += a
                    ok += b
                if mode == "saturating":
                    out += [(q, r) for q in ok] + [(q, Lin(lo)) for q in under] + [(q, Lin(hi)) for q in over]
                elif mode == "checked":
                    out += [(q, some(r)) for q in ok] + [(q, NONE) for q in under + over]
                else:
                    mod = hi - lo + 1
                    for q, v, b in [(q, r, False) for q in ok] + [(q, r.addk(mod) if mod < HALF else None, True) for q in under] + [(q, r.addk(-mod), True) for q in over]:
                        if v is None:
                            # 64-bit wrap below zero: an opaque huge value
                            v = q.sym(1 << 56, None)
                        if mode == "overflowing":
                            out.append((q, ('t', (v, b))))
                        else:
                            out.append((q, v))
            return out
        if f == "abs_diff":
            x, y = I(0), I(1)
            a, b = st.split(('le', x.sub(y)))
            return [(s, y.sub(x)) for s in a] + [(s, x.sub(y)) for s in b]
        if f in ("div_ceil", "is_multiple_of", "next_multiple_of"):
            x, y = I(0), I(1)
            out = []
            for s, q, r in M.divrem(fr, st, x, y, None, sp):
                if f == "is_multiple_of":
                    out.append((s, M.mkbool(('eq', r))))
                    continue
                a, b = s.split(('eq', r))
                for t in a:
                    out.append((t, q if f == "div_ceil" else x))
                for t in b:
                    out.append((t, q.addk(1) if f == "div_ceil" else x.sub(r).add(y)))
            return out
        if f == "is_power_of_two" and not signed:
            out = []
            for s, r in bits.op_popcount(st, I(0), w):
                out.append((s, M.mkbool(('eq', r.addk(-1)))))
            return out
        if f == "pow":
            x, y = I(0), I(1)
            if not x.t and not y.t:
                return [(st, Lin(x.k ** y.k))]
            if x == Lin(2) and not signed:
                return bits.op_shl(st, Lin(1), y, w)
        if f in ("unsigned_abs", "isqrt", "ilog2"):
            return None
        return None

    def minmax(self, st, x, y, mx):
        a, b = st.split(('le', x.sub(y)))
        out = [(s, y if mx else x) for s in a] + [(s, x if mx else y) for s in b]
        return out

    # ------------------------------------------------------------ compiler intrinsics
    def intrinsic(self, fr, st, f, vs, sp, c, rty):
        M = self.M
        if f in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
            return [(st, UNIT)]
        if f in ("likely", "unlikely", "black_box"):
            return [(st, vs[0])]
        if f == "assume":
            return [(s, UNIT) for s in st.assume(M.as_bool(st, vs[0]))]
        if f == "abort":
            M.alarm("panic", "abort", fr, sp, st)
            return []
        if f == "unreachable":
            return []
        if f == "size_of":
            n = self.p.types[c["rargs"][0]].get("size")
            return [(st, Lin(n))] if n is not None else None
        if f == "needs_drop":
            return [(st, True)]
        if f in ("ub_checks", "overflow_checks"):
            return [(st, False)]
        w = None
        if c.get("rargs") and isinstance(c["rargs"][0], int):
            ty = self.p.types[c["rargs"][0]]
            if ty["k"] == "int":
                w = ty["w"]
        ity = None if w is None else ("i" if ty["s"] else "u") + str(w)
        alias = {"ctpop": "count_ones", "cttz": "trailing_zeros", "ctlz": "leading_zeros", "cttz_nonzero": "trailing_zeros", "ctlz_nonzero": "leading_zeros",
                 "saturating_add": "saturating_add", "saturating_sub": "saturating_sub", "wrapping_add": "wrapping_add", "wrapping_sub": "wrapping_sub",
                 "wrapping_mul": "wrapping_mul", "add_with_overflow": "overflowing_add", "sub_with_overflow": "overflowing_sub", "mul_with_overflow": "overflowing_mul",
                 "unchecked_add": "wrapping_add", "unchecked_sub": "wrapping_sub", "unchecked_mul": "wrapping_mul", "unchecked_shl": "unchecked_shl", "unchecked_shr": "unchecked_shr"}.get(f)
        if alias and ity:
            return self.intcall(fr, st, ity, alias, vs, sp)
        if f in ("integer_min", "integer_max") and w is not None:
            return self.minmax(st, M.as_int(st, vs[0]), M.as_int(st, vs[1]), f == "integer_max")
        if f == "discriminant_value":
            out = []
            t = self.p.types[c["rargs"][0]]
            for s, v in M.load(st, vs[0][1]):
                out.append((s, M.discr(s, v, c["rargs"][0])))
            return out
        if f == "three_way_compare":
            return M.binop(fr, st, "Cmp", vs[0], vs[1], c["rargs"][0], sp)
        if f in ("read_via_copy", "volatile_load"):
            return M.load(st, vs[0][1]) if vs[0][0] == 'r' else None
        if f in ("write_via_move",):
            return [(s, UNIT) for s in M.store(st, vs[0][1], vs[1])] if vs[0][0] == 'r' else None
        if f == "transmute" or f == "transmute_unchecked":
            return M.cast(fr, st, "Transmute", vs[0], c["rargs"][0], c["rargs"][1], None, sp)
        if f == "const_eval_select":
            return None
        return None

    def mask_words(self, st):
        """which word of a 256-bit mask holds C"""
        out = []
        cur = [st]
        for i in range(4):
            nx = []
            for s in cur:
                lo, ge = s.split(('le', CV.addk(-64 * i - 63)))
                out += [(i, q) for q in lo]
                nx += ge
            cur = nx
        return out + [(None, q) for q in cur]

    # ------------------------------------------------------------ analysis intrinsics
    def witness(self, fr, st, f, vs, sp, rty, c):
        M = self.M
        if f == "prove":
            msg = vs[1][1].decode() if vs[1][0] == 'str' and isinstance(vs[1][1], bytes) else "?"
            g = M.as_bool(st, vs[0])
            r = st.fact(g)
            if not M.silent:
                M.obligations[msg] = M.obligations.get(msg, 0) + 1
            if r is True:
                if not M.silent:
                    M.proved[msg] = M.proved.get(msg, 0) + 1
                return [(st, UNIT)]
            ok, bad = st.split(g) if r is None else ([], [st])
            for q in bad:
                M.alarm("prove", msg, fr, sp, q)
            return [(q, UNIT) for q in ok]
        if f == "assume":
            return [(s2, UNIT) for s in st.assume(M.as_bool(st, vs[0])) for s2 in M.refine(s, M.as_bool(st, vs[0]), True)]
        if f == "unreachable":
            M.alarm("prove", vs[0][1].decode(), fr, sp, st)
            return []
        if f.startswith("t_"):
            import contracts, interp
            i = contracts.resolve(self.p).get(f[2:])
            if i is None:
                raise interp.Unsupported("function %s is not there" % f[2:])
            keep, M.contracts = M.contracts, {k: v for k, v in M.contracts.items() if k != i}
            try:
                return M.run_fn(i, vs, st, fr, sp)
            finally:
                M.contracts = keep
        if f == "any_mask":
            # [u64; 4], one bit per code point below 256
            out = []
            has = M.as_bool(st, vs[0])
            for s0 in (True, False):
                for s1 in (st.copy().assume(has) if s0 else st.copy().assume(f_not(has))):
                    for i, s in self.mask_words(s1):
                        if i is None and s0:
                            continue
                        ws = [bits.mk(s, 64, {'obs': {CV.addk(-64 * j): s0}} if i == j else {}) for j in range(4)]
                        out.append((s, ('t', tuple(ws))))
            return out
        if f == "mask_has":
            out = []
            for s0, v in M.load(st, vs[0][1]):
                if not (isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 4):
                    s0.add_taint("mask")
                    out.append((s0, ('B', ('u', fresh_id()))))
                    continue
                for i, s in self.mask_words(s0):
                    if i is None:
                        out.append((s, False))
                        continue
                    for s2, b in bits.getbit(s, M.as_int(s, v[1][i]), 64, CV.addk(-64 * i)):
                        out.append((s2, b if b is not None else ('B', ('u', fresh_id()))))
            return out
        if f == "nondet_bool":
            return [(st, ('B', ('u', fresh_id())))]
        if f == "fork":
            a = st.copy()
            return [(st, True), (a, False)]
        if f == "nondet_u32":
            return [(st, st.sym(0, (1 << 32) - 1))]
        if f == "nondet_usize":
            return [(st, st.sym(0, 1 << 40))]
        if f == "nondet_char":
            x = st.sym(0, 0x10FFFF)
            a, b = st.split(('le', x.addk(-0xD7FF)))
            return [(s, x) for s in a] + [(s, x) for s in b if s.assume_le(Lin(0xE000).sub(x))]
        if f == "obs_c":
            return [(st, CV)]
        if f == "obs_category":
            return [(st, ('d', KV))]
        if f == "any_category":
            return [(st, ('d', st.sym(0, len(self.p.types[rty]["v"]) - 1)))]
        if f == "the_version":
            return [(st, ('d', L(Ctx.VER)))]
        if f == "param":
            return [(st, Lin(M.opts.get("param", 0)))]
        if f == "any_str":
            return self.any_str(st, vs[0])
        if f == "any_canonical":
            return self.any_vec(st, vs[0], 2)
        if f == "any_intervals":
            return self.any_vec(st, vs[0], 0)
        if f == "any_around":
            return self.any_around(st, *[M.as_bool(st, v) for v in vs])
        if f == "around":
            return [(st, st.glob['watch'][0])]
        if f == "has":
            out = []
            for s, sl in self.slices(st, vs[0]):
                out += self.has(s, sl)
            return out
        if f == "str_has":
            sl = primlib.chars_of(self, st, vs[0])
            return self.has(st, sl) if sl is not None else [(st, ('B', ('u', fresh_id())))]
        if f == "has_cat":
            return [x for s, sl in self.slices(st, vs[0]) for x in self.has(s, sl)]
        if f == "canonical":
            out = []
            for s, sl in self.slices(st, vs[0]):
                out += self.canonical(s, sl)
            return out
        if f == "bounded":
            # every right end <= limit
            out = []
            for s, sl in self.slices(st, vs[0]):
                if sl is None:
                    out.append((s, ('B', ('u', fresh_id()))))
                    continue
                lim = M.as_int(s, vs[1])
                A = s.arr[sl[1]]
                ok = all(s.is_le(arrays.cell_hi(A.ek, c[1]).sub(lim)) for g in A.segs for c in g.cl if arrays.well(A.ek, c[1])) and all(arrays.well(A.ek, c[1]) for g in A.segs for c in g.cl)
                out.append((s, True if ok else ('B', ('u', fresh_id()))))
            return out
        if f == "leak":
            return [(st, ('r', ('A', M.new_array_from(st, [vs[0]], 'o'), Lin(0), ())))]
        if f == "export":
            n = primlib.strval(self, st, vs[0])
            if not (n[0] == 'str' and isinstance(n[1], bytes)):
                st.add_taint("name of an exported value")
                return [(st, UNIT)]
            n = n[1].decode()
            k = st.mem.get(('O', 'exports'), Lin(0))
            st.mem[('O', 'exports')] = k.addk(1)
            st.mem[('O', 'export', n)] = vs[1]
            return [(st, UNIT)]
        if f == "exported":
            key = ('O', 'export', primlib.strval(self, st, vs[0])[1].decode())
            return [(st, primlib.some(('r', ('L', key, ()))) if key in st.mem else primlib.NONE)]
        if f == "exports":
            return [(st, st.mem.get(('O', 'exports'), Lin(0)))]
        if f == "lazy":
            aid = ('A', fresh_id())
            st.arr[aid] = Arr('lz', st.sym(0, 1 << 38), ())
            st.mem[('O', 'lazy')] = vs[0]
            return [(st, ('v', aid))]
        if f == "taint":
            st.add_taint("harness")
            return [(st, UNIT)]
        if f == "note":
            M.note(fr, sp, st, show(vs[0]))
            return [(st, UNIT)]
        return None

    def any_str(self, st, has):
        M = self.M
        if not st.z.has(Ctx.C):
            n = st.sym(0, 1 << 38)
            x, gid, aid = fresh_id(), fresh_id(), ('A', fresh_id())
            st.Z().new(x, 0, 0x10FFFF, gid)
            st.arr[aid] = Arr('pt', n, (Seg(Lin(0), n, (('?', L(x), gid),)),))
            return [(st, ('str', aid))]
        h = M.as_bool(st, has)
        yes, no = st.split(h)
        out = []
        for s0, mem in [(s, True) for s in yes] + [(s, False) for s in no]:
            sts = [s0]
            if mem:
                a, b = s0.split(('le', CV.addk(-0xD7FF)))
                sts = a + [q for q in b if q.assume_le(Lin(0xE000).sub(CV))]
            for s in sts:
                n = s.sym(1 if mem else 0, 1 << 38)
                cl = []
                for c in (('B', 'C', 'A') if mem else ('B', 'A')):
                    gid = fresh_id()
                    x = fresh_id()
                    z = s.Z()
                    z.new(x, 0, 0x10FFFF, gid)
                    if c == 'B':
                        z.add(x, Ctx.C, -1)
                        t = L(x)
                    elif c == 'A':
                        z.add(Ctx.C, x, -1)
                        t = L(x)
                    else:
                        t = CV
                    cl.append((c, t, gid))
                aid = ('A', fresh_id())
                sg = arrays.drop_empty(s, Seg(Lin(0), n, tuple(cl), must=mem))
                s.arr[aid] = Arr('pt', n, (sg,))
                out.append((s, ('str', aid)))
        return out

    def any_around(self, st, prev, has, nxt):
        """any canonical list; its intervals before, around and after C (those said to exist) at watched positions"""
        s = st.copy()
        C = Ctx.C

        def iv(gid, before=None, after=None):
            z = s.Z()
            a, b = fresh_id(), fresh_id()
            for x in (a, b):
                z.new(x, 0, 0x10FFFF, gid) if gid is not None else z.new(x, 0, 0x10FFFF)
            z.add(a, b, 0)
            if after is not None:
                z.add(after, a, -2)
            if before is not None:
                z.add(b, before, -2)
            return a, b

        def clump(t, c):
            return (c, ('t', (L(t[0]), L(t[1]))))
        p = s.sym(0, 1 << 37) if prev else Lin(0)
        cells = []
        z = s.Z()
        if prev:
            t = iv(None)
            z.add(t[1], C, -1)
            cells.append(('B', t))
        if has:
            t = iv(None, after=cells[-1][1][1] if cells else None)
            z.add(t[0], C, 0)
            z.add(C, t[1], 0)
            cells.append(('C', t))
        if nxt:
            t = iv(None, after=cells[-1][1][1] if cells else None)
            z.add(C, t[0], -1)
            cells.append(('A', t))
        segs = []
        if prev:
            g = fresh_id()
            segs.append(Seg(Lin(0), p, (('B',) + clump(iv(g, before=cells[0][1][0]), 'B')[1:] + (g,),), ord=2))
        at = p
        for c, t in cells:
            segs.append(Seg(at, at.addk(1), ((c, ('t', (L(t[0]), L(t[1]))), None),), must=c == 'C', ord=2, single=True))
            at = at.addk(1)
        n = at
        if nxt:
            n = s.sym(0, 1 << 38)
            s.assume_le(at.sub(n))
            g = fresh_id()
            segs.append(Seg(at, n, (('A',) + clump(iv(g, after=cells[-1][1][1]), 'A')[1:] + (g,),), ord=2))
        aid = ('A', fresh_id())
        s.arr[aid] = Arr('iv', n, tuple(segs))
        s.glob = dict(s.glob, watch=tuple(p.addk(i) for i in range(len(cells) + 1)), keep=s.glob.get('keep', ()) + tuple(q for q, _ in p.t))
        return [(s, ('v', aid))] if not s.dead else []

    def any_vec(self, st, has, order):
        M = self.M
        yes, no = st.split(M.as_bool(st, has))
        out = []
        for s, mem in [(s, True) for s in yes] + [(s, False) for s in no]:
            n = s.sym(1 if mem else 0, 1 << 38)
            cl = []
            for c in (('B', 'C', 'A') if mem else ('B', 'A')):
                gid = fresh_id()
                z = s.Z()
                a, b = fresh_id(), fresh_id()
                z.new(a, 0, 0x10FFFF, gid)
                z.new(b, 0, 0x10FFFF, gid)
                z.add(a, b, 0)
                if c == 'B':
                    z.add(b, Ctx.C, -1)
                elif c == 'C':
                    z.add(a, Ctx.C, 0)
                    z.add(Ctx.C, b, 0)
                else:
                    z.add(Ctx.C, a, -1)
                cl.append((c, ('t', (L(a), L(b))), gid))
            aid = ('A', fresh_id())
            sg = arrays.drop_empty(s, Seg(Lin(0), n, tuple(cl), must=mem, ord=order))
            s.arr[aid] = Arr('iv', n, (sg,))
            out.append((s, ('v', aid)))
        return out

    def has(self, st, sl):
        if sl is None or sl[0] != 's' or st.arr[sl[1]].ek == 'o':
            return [(st, ('B', ('u', fresh_id())))] if sl is None or st.arr.get(sl[1]) is None or not self.known_empty(st, sl) else [(st, False)]
        out = []
        sts = self.split_view(st, sl)
        for s0 in sts:
            for s in arrays.classify_all(s0, sl[1]):
                A = s.arr[sl[1]]
                segs = self.view(s, sl)
                if any(g.must for g in segs):
                    out.append((s, True))
                elif not any('C' in g.classes() or 'U' in g.classes() or '?' in g.classes() for g in segs):
                    out.append((s, False))
                else:
                    out.append((s, ('B', ('u', fresh_id()))))
        return out

    def known_empty(self, st, sl):
        return st.is_le(self.slen(sl))

    def split_view(self, st, sl):
        """make the slice bounds segment boundaries"""
        sts = [st]
        for b in (sl[2], sl[3]):
            nx = []
            for s in sts:
                nx += arrays.split_at(s, sl[1], b)
            sts = nx
        return sts

    def view(self, st, sl):
        A = st.arr[sl[1]]
        if st.is_eq(sl[2]) and st.is_eq(sl[3].sub(A.n)):
            return list(A.segs)
        out = []
        for g in A.segs:
            if st.is_le(sl[2].sub(g.s)) and st.is_le(g.e.sub(sl[3])):
                out.append(g)
        return out

    def canonical(self, st, sl):
        if sl is None or sl[0] != 's':
            return [(st, ('B', ('u', fresh_id())))]
        out = []
        for s0 in self.split_view(st, sl):
            for s in arrays.classify_all(s0, sl[1]):
                A = s.arr[sl[1]]
                segs = [g for g in self.view(s, sl) if g.cl]
                ok = A.ek in ('iv', 'pt') or not segs
                for g in segs:
                    if g.ord != 2:
                        ok = False
                    if not all(arrays.well(A.ek, c[1]) for c in g.cl):
                        ok = False
                if ok:
                    for i, g in enumerate(segs):
                        for h in segs[i + 1:]:
                            for (_, t, _) in g.cl:
                                for (_, u, _) in h.cl:
                                    if not arrays.proved_order(s, A.ek, t, u, True):
                                        ok = False
                out.append((s, True if ok else ('B', ('u', fresh_id()))))
        return out


class Call:
    __slots__ = ("P", "M", "fr", "st", "c", "vs", "sp", "atys", "rty")

    def __init__(self, P, fr, st, c, vs, sp, atys, rty):
        self.P = P
        self.M = P.M
        self.fr = fr
        self.st = st
        self.c = c
        self.vs = vs
        self.sp = sp
        self.atys = atys
        self.rty = rty

    def targ(self, k):
        a = self.c.get("rargs") or self.c.get("args") or []
        return a[k] if k < len(a) and isinstance(a[k], int) else None


NORM = [("alloc::vec::", "std::vec::"), ("core::", "core::")]


def norm(n):
    return n.replace("alloc::vec::", "std::vec::").replace("core::iter::", "std::iter::").replace("core::cmp::", "std::cmp::").replace("core::mem::", "std::mem::").replace("core::ops::", "std::ops::").replace("alloc::slice::", "std::slice::")


def prim(*names):
    def d(f):
        f._names = tuple(norm(x) for x in names)
        return f
    return d


import primlib  # noqa: E402  (attaches the library transfer functions)
import strlib  # noqa: E402
import fmtlib  # noqa: E402
primlib.attach(Prims)
