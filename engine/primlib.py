"""Transfer functions of standard library primitives."""
from dom import Lin, L, K, INF, HALF, ZERO, fresh_id
from state import Seg, Arr, UNIT, Ctx, f_not, show, vmap
import arrays
import bits

NONE = ('e', 0, ())


def some(v):
    return ('e', 1, (v,))


def norm(n):
    return n.replace("alloc::vec::", "std::vec::").replace("core::iter::", "std::iter::").replace("core::cmp::", "std::cmp::").replace("core::mem::", "std::mem::").replace("core::ops::", "std::ops::").replace("alloc::slice::", "std::slice::")


LIST = []


def prim(*names):
    def d(f):
        f._names = tuple(norm(x) for x in names)
        LIST.append(f)
        return f
    return d


def attach(cls):
    for f in LIST:
        setattr(cls, f.__name__, f)


V = "std::vec::Vec::<T, A>::"
V1 = "std::vec::Vec::<T>::"
S = "core::slice::<impl [T]>::"
S2 = "std::slice::<impl [T]>::"


# ---------------------------------------------------------------- Vec
def new_vec(M, st, ety=None):
    aid = ('A', fresh_id())
    st.arr[aid] = Arr(M.ekind_ty(ety) if ety is not None else 'o', Lin(0), ())
    return ('v', aid)


@prim(V1 + "new", V1 + "with_capacity", V + "new_in", V + "with_capacity_in", "<std::vec::Vec<T> as std::default::Default>::default", V1 + "default")
def vec_new(self, c):
    return [(c.st, new_vec(c.M, c.st, c.targ(0)))]


def push(M, st, aid, v):
    A = st.arr[aid]
    ek = A.ek
    if ek != 'o' and not arrays.well(ek, v):
        if isinstance(v, tuple) and v[0] == 'T':
            st.add_taint(v[1])
        ek = 'o'
    if ek == 'o' and not A.segs and st.is_eq(A.n):
        ek = M.ekind(v)
    segs = A.segs + (Seg(A.n, A.n.addk(1), (('?', v, None),), single=True),)
    st.arr[aid] = A.rep(ek=ek, n=A.n.addk(1), segs=segs)


@prim(V + "push", V + "push_within_capacity")
def vec_push(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is not None:
            push(c.M, s, aid, c.vs[1])
        out.append((s, UNIT))
    return out


def cut(st, aid, n):
    """drop everything at and after n (n is a segment boundary)"""
    A = st.arr[aid]
    segs = []
    for g in A.segs:
        if g.s == n or st.is_le(n.sub(g.s)):
            break
        segs.append(g)
    st.arr[aid] = A.rep(n=n, segs=tuple(segs))


@prim(V + "pop")
def vec_pop(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s, ('T', 'pop')))
            continue
        A = s.arr[aid]
        e, ne = s.split(('le', A.n))
        out += [(q, NONE) for q in e]
        for q in ne:
            last = q.arr[aid].n.addk(-1)
            for r, i in arrays.materialize(q, aid, last):
                v = r.arr[aid].segs[i].cl[0][1]
                B = r.arr[aid]
                r.arr[aid] = B.rep(n=last, segs=B.segs[:i])
                out.append((r, some(v)))
    return out


@prim(V + "truncate")
def vec_truncate(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s, UNIT))
            continue
        n = c.M.as_int(s, c.vs[1])
        keep, trunc = s.split(('le', s.arr[aid].n.sub(n)))
        out += [(q, UNIT) for q in keep]
        for q in trunc:
            for r in arrays.split_at(q, aid, n):
                cut(r, aid, n)
                out.append((r, UNIT))
    return out


@prim(V + "clear")
def vec_clear(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is not None:
            A = s.arr[aid]
            s.arr[aid] = A.rep(n=Lin(0), segs=())
        out.append((s, UNIT))
    return out


@prim(V + "len", S + "len")
def seq_len(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        out.append((s, self.slen(sl) if sl is not None else s.sym(0, 1 << 40)))
    return out


@prim(V + "is_empty", S + "is_empty")
def seq_is_empty(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None:
            out.append((s, ('B', ('u', fresh_id()))))
            continue
        f = ('le', self.slen(sl))
        r = s.fact(f)
        out.append((s, c.M.mkbool(f if r is None else r)))
    return out


@prim(V + "capacity")
def vec_cap(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        n = s.sym(0, 1 << 40)
        if aid is not None:
            s.assume_le(s.arr[aid].n.sub(n))
        out.append((s, n))
    return out


@prim(V + "reserve", V + "reserve_exact", V + "shrink_to_fit", V + "shrink_to")
def vec_reserve(self, c):
    return [(c.st, UNIT)]


@prim("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", V + "as_slice", V + "as_mut_slice",
      "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
def vec_deref(self, c):
    return [(s, ('s', aid, Lin(0), s.arr[aid].n) if aid is not None else ('T', 'vector')) for s, aid in self.vec(c.st, c.vs[0])]


@prim(V + "into_boxed_slice", S2 + "into_vec", "std::slice::<impl [T]>::into_vec", "std::vec::Vec::<T, A>::leak")
def vec_box(self, c):
    v = c.vs[0]
    if isinstance(v, tuple) and v[0] == 's' and c.st.is_eq(v[2]) and c.st.is_eq(v[3].sub(c.st.arr[v[1]].n)):
        return [(c.st, ('v', v[1]))]
    if isinstance(v, tuple) and v[0] == 'v':
        n = norm(c.c.get("rdef") or "")
        if "into_boxed" in n or "leak" in n:
            return [(c.st, ('s', v[1], Lin(0), c.st.arr[v[1]].n))]
    return None


def seg_shift(g, d):
    return g.rep(s=g.s.add(d), e=g.e.add(d))


def copy_view(P, st, sl):
    """[(state, ek, n, segments relative to 0)] of a slice's contents (values copied)"""
    if sl is None:
        st.add_taint("copy of unknown slice")
        n = st.sym(0, 1 << 40)
        return [(st, 'o', n, (Seg(Lin(0), n, (('U', ('T', 'unknown slice'), fresh_id()),)),))]
    if sl[0] == 'cs':
        out = []
        for s, sl2 in P.M.cm.as_array(P.M, st, sl):
            if sl2 is None:
                out += copy_view(P, s, None)
            else:
                out += copy_view(P, s, sl2)
        return out
    out = []
    for s in P.split_view(st, sl):
        A = s.arr[sl[1]]
        segs = []
        for g in P.view(s, sl):
            if g.single:
                segs.append(seg_shift(g, sl[2].scale(-1)))
            else:
                segs.append(seg_shift(g.rep(cl=arrays.clone_seg_cl(s, g.cl)), sl[2].scale(-1)))
        out.append((s, A.ek, sl[3].sub(sl[2]), tuple(segs)))
    return out


def append(st, aid, ek, n, segs):
    A = st.arr[aid]
    e = A.ek
    if not A.segs or st.is_eq(A.n):
        e = ek if segs else A.ek
    elif segs and ek != A.ek:
        e = 'o'
    st.arr[aid] = A.rep(ek=e, n=A.n.add(n), segs=A.segs + tuple(seg_shift(g, A.n) for g in segs))


@prim(V + "extend_from_slice", "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend#slice")
def vec_extend(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        for s1, sl in self.slices(s, c.vs[1]):
            for s2, ek, n, segs in copy_view(self, s1, sl):
                if aid is not None:
                    append(s2, aid, ek, n, segs)
                out.append((s2, UNIT))
    return out


@prim(V + "append")
def vec_append(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        for s1, bid in self.vec(s, c.vs[1]):
            if aid is not None and bid is not None:
                B = s1.arr[bid]
                append(s1, aid, B.ek, B.n, B.segs)
                s1.arr[bid] = B.rep(n=Lin(0), segs=())
            out.append((s1, UNIT))
    return out


def to_vec(self, st, sl):
    out = []
    for s, ek, n, segs in copy_view(self, st, sl):
        aid = ('A', fresh_id())
        s.arr[aid] = Arr(ek, n, segs)
        out.append((s, ('v', aid)))
    return out


@prim(S2 + "to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "<std::vec::Vec<T, A> as std::clone::Clone>::clone", S2 + "to_vec_in",
      "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::boxed::Box<[T], A> as std::clone::Clone>::clone",
      "<std::boxed::Box<[T]> as std::convert::From<&[T]>>::from")
def seq_to_vec(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        for s2, v in to_vec(self, s, sl):
            if "Box<[T]" in (c.c.get("rdef") or ""):
                v = ('s', v[1], Lin(0), s2.arr[v[1]].n)
            out.append((s2, v))
    return out


@prim("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from", "std::boxed::box_assume_init_into_vec_unsafe")
def vec_from_array(self, c):
    M, st = c.M, c.st
    v = c.vs[0]
    out = []
    if isinstance(v, tuple) and v[0] == 'r':
        vals = M.load(st, v[1])
    else:
        vals = [(st, v)]
    for s, x in vals:
        while isinstance(x, tuple) and x[0] == 'uw':
            x = x[2]
        if isinstance(x, tuple) and x[0] == 't':
            # MaybeUninit wrappers around the array
            aid = M.new_array_from(s, x[1], M.ekind_ty(c.targ(0)) if c.targ(0) is not None else None)
            out.append((s, ('v', aid)))
        elif isinstance(x, tuple) and x[0] == 'a':
            out.append((s, ('v', x[1])))
        else:
            s.add_taint("vec from array")
            out.append((s, ('T', 'vec from array')))
    return out


@prim("std::boxed::Box::<T>::new_uninit", "std::boxed::Box::<T>::new_uninit_in")
def box_uninit(self, c):
    key = ('H', fresh_id())
    c.st.mem[key] = ('T', 'uninit')
    return [(c.st, ('r', ('L', key, ())))]


@prim("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::new_in", "std::boxed::Box::<T>::pin")
def box_new(self, c):
    key = ('H', fresh_id())
    c.st.mem[key] = c.vs[0]
    return [(c.st, ('r', ('L', key, ())))]


@prim("std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init", "std::boxed::Box::<std::mem::MaybeUninit<T>, A>::write")
def box_assume(self, c):
    st = c.st
    v = c.vs[0]
    if "write" in c.c.get("rdef", ""):
        for s in c.M.store(st, v[1], c.vs[1]):
            return [(s, v)]
    if v[0] == 'r':
        x = c.M.load(st, v[1])[0][1]
        while isinstance(x, tuple) and x[0] == 'uw':
            x = x[2]
        c.M.store(st, v[1], x)
    return [(st, v)]


def check_idx(c, st, idx, n, what="index out of bounds"):
    """states where 0 <= idx < n; alarms otherwise"""
    ok, bad = st.split(('le', idx.sub(n).addk(1)))
    for q in bad:
        c.M.alarm("panic", what, c.fr, c.sp, q)
    return ok


def range_of(M, st, t, v, n):
    """(a, b) of a range value of type t over a sequence of length n, or None"""
    ty = M.p.types[t]
    d = ty.get("def", "")
    if ty["k"] != "adt":
        return None
    I = lambda x: M.as_int(st, x)
    if d.endswith("ops::RangeFull") or d.endswith("RangeFull"):
        return Lin(0), n
    vs = v[1] if isinstance(v, tuple) and v[0] == 't' else ()
    if d.endswith("RangeFrom"):
        return I(vs[0]), n
    if d.endswith("RangeTo"):
        return Lin(0), I(vs[0])
    if d.endswith("RangeToInclusive"):
        return Lin(0), I(vs[0]).addk(1)
    if d.endswith("ops::Range") or d.endswith("::Range"):
        return I(vs[0]), I(vs[1])
    if d.endswith("RangeInclusive"):
        return I(vs[0]), I(vs[1]).addk(1)
    return None


def index(self, c, st, base, it, iv, mut=False):
    out = []
    M = c.M
    for s, sl in self.slices(st, base):
        if sl is None:
            out.append((s, ('T', 'index')))
            continue
        ty = M.p.types[it]
        n = self.slen(sl)
        if ty["k"] == "int":
            i = M.as_int(s, iv, it)
            for q in check_idx(c, s, i, n):
                out.append((q, self.elem_ref(sl, i)))
            continue
        r = range_of(M, s, it, iv, n)
        if r is None:
            s.add_taint("index type")
            out.append((s, ('T', 'index')))
            continue
        a, b = r
        ok, bad = s.split(('le', a.sub(b)))
        for q in bad:
            M.alarm("panic", "slice start after end", c.fr, c.sp, q)
        for q in ok:
            ok2, bad2 = q.split(('le', b.sub(n)))
            for z in bad2:
                M.alarm("panic", "slice end out of bounds", c.fr, c.sp, z)
            out += [(z, self.sub(sl, a, b)) for z in ok2]
    return out


@prim("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
      "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
      "core::array::<impl std::ops::Index<I> for [T; N]>::index", "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut",
      "std::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def seq_index(self, c):
    it = c.targ(1)
    if it is None:
        return None
    return index(self, c, c.st, c.vs[0], it, c.vs[1])


@prim(S + "get", S + "get_mut", S + "get_unchecked", S + "get_unchecked_mut")
def seq_get(self, c):
    out = []
    it = c.targ(1)
    unchecked = "unchecked" in c.c["rdef"]
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None:
            out.append((s, ('T', 'get')))
            continue
        n = self.slen(sl)
        ty = c.M.p.types[it]
        if ty["k"] == "int":
            i = c.M.as_int(s, c.vs[1], it)
            ok, bad = s.split(('le', i.sub(n).addk(1)))
            if unchecked:
                for q in bad:
                    c.M.alarm("panic", "unchecked index out of bounds", c.fr, c.sp, q)
                out += [(q, self.elem_ref(sl, i)) for q in ok]
            else:
                out += [(q, some(self.elem_ref(sl, i))) for q in ok] + [(q, NONE) for q in bad]
            continue
        r = range_of(c.M, s, it, c.vs[1], n)
        if r is None:
            out.append((s, ('T', 'get')))
            continue
        a, b = r
        ok, bad = s.split(('and', ('le', a.sub(b)), ('le', b.sub(n))))
        if unchecked:
            for q in bad:
                c.M.alarm("panic", "unchecked range out of bounds", c.fr, c.sp, q)
            out += [(q, self.sub(sl, a, b)) for q in ok]
        else:
            out += [(q, some(self.sub(sl, a, b))) for q in ok] + [(q, NONE) for q in bad]
    return out


@prim(S + "first", S + "last", S + "first_mut", S + "last_mut")
def seq_ends(self, c):
    out = []
    first = "first" in c.c["rdef"].rsplit("::", 1)[1]
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None:
            out.append((s, ('T', 'first/last')))
            continue
        n = self.slen(sl)
        e, ne = s.split(('le', n))
        out += [(q, NONE) for q in e]
        out += [(q, some(self.elem_ref(sl, Lin(0) if first else n.addk(-1)))) for q in ne]
    return out


@prim(S + "split_first", S + "split_last", S + "split_first_mut", S + "split_last_mut")
def seq_split_ends(self, c):
    out = []
    first = "first" in c.c["rdef"].rsplit("::", 1)[1]
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None:
            out.append((s, ('T', 'split')))
            continue
        n = self.slen(sl)
        e, ne = s.split(('le', n))
        out += [(q, NONE) for q in e]
        for q in ne:
            if first:
                out.append((q, some(('t', (self.elem_ref(sl, Lin(0)), self.sub(sl, Lin(1), n))))))
            else:
                out.append((q, some(('t', (self.elem_ref(sl, n.addk(-1)), self.sub(sl, Lin(0), n.addk(-1)))))))
    return out


@prim(S + "split_at", S + "split_at_mut")
def seq_split_at(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None:
            out.append((s, ('T', 'split')))
            continue
        n = self.slen(sl)
        i = c.M.as_int(s, c.vs[1])
        ok, bad = s.split(('le', i.sub(n)))
        for q in bad:
            c.M.alarm("panic", "split_at out of bounds", c.fr, c.sp, q)
        out += [(q, ('t', (self.sub(sl, Lin(0), i), self.sub(sl, i, n)))) for q in ok]
    return out


@prim(S + "swap")
def seq_swap(self, c):
    out = []
    M = c.M
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None or sl[0] != 's':
            out.append((s, UNIT))
            continue
        i, j = M.as_int(s, c.vs[1]), M.as_int(s, c.vs[2])
        n = self.slen(sl)
        for q in check_idx(c, s, i, n):
            for q2 in check_idx(c, q, j, n):
                for a, x in M.load(q2, ('A', sl[1], sl[2].add(i), ())):
                    for b, y in M.load(a, ('A', sl[1], sl[2].add(j), ())):
                        for d in M.store(b, ('A', sl[1], sl[2].add(i), ()), y):
                            for e in M.store(d, ('A', sl[1], sl[2].add(j), ()), x):
                                out.append((e, UNIT))
    return out


# ---------------------------------------------------------------- insertion / removal
@prim(V + "insert")
def vec_insert(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s, UNIT))
            continue
        i = c.M.as_int(s, c.vs[1])
        ok, bad = s.split(('le', i.sub(s.arr[aid].n)))
        for q in bad:
            c.M.alarm("panic", "insert out of bounds", c.fr, c.sp, q)
        for q in ok:
            for r in arrays.split_at(q, aid, i):
                A = r.arr[aid]
                left = [g for g in A.segs if r.is_le(g.e.sub(i))]
                right = [g for g in A.segs if not r.is_le(g.e.sub(i))]
                segs = left + [Seg(i, i.addk(1), (('?', c.vs[2], None),), single=True)] + [seg_shift(g, Lin(1)) for g in right]
                r.arr[aid] = A.rep(n=A.n.addk(1), segs=tuple(segs))
                out.append((r, UNIT))
    return out


@prim(V + "remove")
def vec_remove(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s, ('T', 'remove')))
            continue
        i = c.M.as_int(s, c.vs[1])
        for q in check_idx(c, s, i, s.arr[aid].n, "remove out of bounds"):
            for r, k in arrays.materialize(q, aid, i):
                A = r.arr[aid]
                v = A.segs[k].cl[0][1]
                segs = list(A.segs[:k]) + [seg_shift(g, Lin(-1)) for g in A.segs[k + 1:]]
                r.arr[aid] = A.rep(n=A.n.addk(-1), segs=tuple(segs))
                out.append((r, v))
    return out


@prim(V + "split_off")
def vec_split_off(self, c):
    out = []
    for s, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s, ('T', 'split_off')))
            continue
        i = c.M.as_int(s, c.vs[1])
        ok, bad = s.split(('le', i.sub(s.arr[aid].n)))
        for q in bad:
            c.M.alarm("panic", "split_off out of bounds", c.fr, c.sp, q)
        for q in ok:
            for r in arrays.split_at(q, aid, i):
                A = r.arr[aid]
                right = [seg_shift(g, i.scale(-1)) for g in A.segs if not r.is_le(g.e.sub(i))]
                n = A.n
                cut(r, aid, i)
                nid = ('A', fresh_id())
                r.arr[nid] = Arr(A.ek, n.sub(i), tuple(right))
                out.append((r, ('v', nid)))
    return out


# ---------------------------------------------------------------- sorting
def sort_key(P, st, v):
    """constant to order an element by (texts, numbers and field-less variants with the derived order)"""
    if isinstance(v, tuple) and v[0] == 'd':
        v = v[1]
    if isinstance(v, Lin):
        return None if v.t else v.k
    x = strval(P, st, v)
    return strlib_known(st, x)


def strlib_known(st, x):
    import strlib
    return strlib.known(st, x[1]) if isinstance(x, tuple) and x[0] == 'str' else None


def sort_slice(P, st, sl, ordflag):
    """[(state)] contents permuted into order (ordflag 0/1)"""
    if sl is None or sl[0] != 's':
        st.add_taint("sort")
        return [st]
    A = st.arr[sl[1]]
    whole = st.is_eq(sl[2]) and st.is_eq(sl[3].sub(A.n))
    if st.is_le(P.slen(sl).addk(-1)):
        return [st]
    out = []
    if A.ek not in ('iv', 'pt') and whole and A.segs and all(g.single for g in A.segs):
        # known elements
        keys = [sort_key(P, st, g.cl[0][1]) for g in A.segs] if ordflag else [None]
        if None not in keys and len({type(k) for k in keys}) == 1:
            gs = [A.segs[i] for i in sorted(range(len(keys)), key=lambda i: keys[i])]
            st.arr[sl[1]] = A.rep(segs=tuple(g.rep(s=Lin(i), e=Lin(i + 1)) for i, g in enumerate(gs)))
            return [st]
    if A.ek not in ('iv', 'pt', 'cat'):
        st.add_taint("sort")
        return [st]
    if whole:
        for s in arrays.fold_all(st, sl[1]):
            A = s.arr[sl[1]]
            if A.segs:
                g = A.segs[0]
                if g.single:
                    out.append(s)
                    continue
                # clumps of a sorted array follow each other: B* C* A*
                s.arr[sl[1]] = A.rep(segs=(g.rep(ord=ordflag, s=Lin(0), e=A.n),))
            out.append(s)
        return out
    for s in P.split_view(st, sl):
        for s2 in arrays.classify_all(s, sl[1]):
            A = s2.arr[sl[1]]
            ix = [i for i, g in enumerate(A.segs) if s2.is_le(sl[2].sub(g.s)) and s2.is_le(g.e.sub(sl[3]))]
            if ix:
                arrays.fold_range(s2, sl[1], ix[0], ix[-1])
                A = s2.arr[sl[1]]
                segs = list(A.segs)
                if not segs[ix[0]].single:
                    segs[ix[0]] = segs[ix[0]].rep(ord=ordflag)
                s2.arr[sl[1]] = A.rep(segs=tuple(segs))
            out.append(s2)
    return out


def generic_elem(M, st, ek):
    """value of an arbitrary element"""
    if ek == 'iv':
        a, b = st.sym(0, (1 << 32) - 1), st.sym(0, (1 << 32) - 1)
        return ('t', (a, b)), a
    if ek == 'pt':
        a = st.sym(0, (1 << 32) - 1)
        return a, a
    return None, None


def key_is_low(P, c, fr, st, ek, cty, cv, kind):
    """does the key/compare closure order elements by their low end?"""
    M = c.M
    s = st.copy()
    x, xl = generic_elem(M, s, ek)
    if x is None:
        return False

    def ref(s, v):
        k = ('H', fresh_id())
        s.mem[k] = v
        return ('r', ('L', k, ()))
    M.silent += 1
    try:
        if kind == "key":
            for r, v in M.call_closure(fr, s, cty, cv, [ref(s, x)], c.sp):
                if isinstance(v, tuple) and v[0] == 't' and v[1]:
                    v = v[1][0]
                if isinstance(v, tuple) and v[0] == 'r':
                    v = M.load(r, v[1])[0][1]
                if isinstance(v, tuple) and v[0] == 't' and v[1]:
                    v = v[1][0]
                if not isinstance(v, Lin) or not r.is_eq(v.sub(xl)):
                    return False
            return True
        y, yl = generic_elem(M, s, ek)
        n = 0
        for r, v in M.call_closure(fr, s, cty, cv, [ref(s, x), ref(s, y)], c.sp):
            if not (isinstance(v, tuple) and v[0] == 'd'):
                return False
            for k in (0, 1, 2):
                for q in r.copy().assume(('eq', v[1].addk(-k))):
                    n += 1
                    if k == 0 and not q.is_le(xl.sub(yl)):
                        return False
                    if k == 2 and not q.is_le(yl.sub(xl)):
                        return False
                    if k == 1 and not q.is_eq(xl.sub(yl)):
                        return False
        return n > 0
    finally:
        M.silent -= 1


@prim(S2 + "sort", S + "sort_unstable", S2 + "sort_unstable")
def seq_sort(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        for q in sort_slice(self, s, sl, 1):
            out.append((q, UNIT))
    return out


@prim(S2 + "sort_by_key", S + "sort_unstable_by_key", S2 + "sort_by_cached_key")
def seq_sort_key(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        ek = s.arr[sl[1]].ek if sl is not None and sl[0] == 's' else 'o'
        ok = key_is_low(self, c, c.fr, s, ek, c.atys[1], c.vs[1], "key")
        for q in sort_slice(self, s, sl, 1 if ok else 0):
            out.append((q, UNIT))
    return out


@prim(S2 + "sort_by", S + "sort_unstable_by")
def seq_sort_by(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        ek = s.arr[sl[1]].ek if sl is not None and sl[0] == 's' else 'o'
        ok = key_is_low(self, c, c.fr, s, ek, c.atys[1], c.vs[1], "cmp")
        for q in sort_slice(self, s, sl, 1 if ok else 0):
            out.append((q, UNIT))
    return out


@prim(V + "dedup")
def vec_dedup(self, c):
    out = []
    for s0, aid in self.vec(c.st, c.vs[0]):
        if aid is None:
            out.append((s0, UNIT))
            continue
        for s in arrays.fold_all(s0, aid):
            A = s.arr[aid]
            if not A.segs:
                out.append((s, UNIT))
                continue
            n = s.sym(0, None)
            s.assume_le(n.sub(A.n))
            g = A.segs[0]
            if g.single:
                out.append((s, UNIT))
                continue
            e, ne = s.split(('le', A.n))
            for q in e:
                out.append((q, UNIT))
            for q in ne:
                q.assume_le(Lin(1).sub(n))
                o = g.ord
                if A.ek == 'pt' and g.ord == 1:
                    o = 2
                q.arr[aid] = A.rep(n=n, segs=(g.rep(e=n, ord=o),))
                out.append((q, UNIT))
    return out


# ---------------------------------------------------------------- searching
@prim(S + "partition_point")
def seq_partition_point(self, c):
    M = c.M
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None or sl[0] != 's':
            s.add_taint("partition_point")
            out.append((s, s.sym(0, 1 << 40)))
            continue
        n = self.slen(sl)
        x = s.sym(0, None)
        s.assume_le(x.sub(n))
        zero, pos = s.split(('le', x))
        for q in zero + pos:
            ispos = not q.is_le(x)
            cur = [q]
            if ispos:
                nx = []
                for r in cur:
                    ref = self.elem_ref(sl, x.addk(-1))
                    for r1, _ in M.load(r, ref[1]):
                        for r2, f in self.pred(c.fr, r1, c.atys[1], c.vs[1], [ref], c.sp):
                            nx += r2.assume(f)
                cur = nx
            for r in cur:
                end, mid = r.split(('eq', x.sub(n)))
                out += [(e, x) for e in end]
                for m in mid:
                    ref = self.elem_ref(sl, x)
                    for r1, _ in M.load(m, ref[1]):
                        for r2, f in self.pred(c.fr, r1, c.atys[1], c.vs[1], [ref], c.sp):
                            out += [(e, x) for e in r2.assume(f_not(f))]
    return out


def bsearch(self, c, s, sl, cmpf):
    """cmpf(state, ref) -> [(state, Lin ordering index 0/1/2)]; Result<usize, usize>"""
    M = c.M
    out = []
    n = self.slen(sl)
    # found
    f = s.copy()
    x = f.sym(0, None)
    if f.assume_le(x.sub(n).addk(1)):
        ref = self.elem_ref(sl, x)
        for r, _ in M.load(f, ref[1]):
            for r2, o in cmpf(r, ref):
                for r3 in r2.assume(('eq', o.addk(-1))):
                    out.append((r3, ('e', 0, (x,))))
    # not found
    x = s.sym(0, None)
    s.assume_le(x.sub(n))
    zero, pos = s.split(('le', x))
    cur = list(zero)
    for q in pos:
        ref = self.elem_ref(sl, x.addk(-1))
        for r, _ in M.load(q, ref[1]):
            for r2, o in cmpf(r, ref):
                cur += r2.assume(('eq', o))
    for q in cur:
        end, mid = q.split(('eq', x.sub(n)))
        out += [(e, ('e', 1, (x,))) for e in end]
        for m in mid:
            ref = self.elem_ref(sl, x)
            for r, _ in M.load(m, ref[1]):
                for r2, o in cmpf(r, ref):
                    out += [(e, ('e', 1, (x,))) for e in r2.assume(('eq', o.addk(-2)))]
    return out


@prim(S + "binary_search_by", S + "binary_search_by_key", S + "binary_search")
def seq_bsearch(self, c):
    M = c.M
    out = []
    nm = c.c["rdef"].rsplit("::", 1)[1]
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is None or sl[0] != 's':
            s.add_taint("binary search")
            out.append((s, ('T', 'binary search')))
            continue

        def cmpf(st, ref):
            if nm == "binary_search_by":
                return [(r, v[1]) for r, v in M.call_closure(c.fr, st, c.atys[1], c.vs[1], [ref], c.sp) if isinstance(v, tuple) and v[0] == 'd']
            if nm == "binary_search":
                ks = M.load(st, ref[1])
                tg = c.vs[1]
            else:
                ks = M.call_closure(c.fr, st, c.atys[2], c.vs[2], [ref], c.sp)
                tg = c.vs[1]
            res = []
            for r, k in ks:
                t = M.load(r, tg[1])[0][1] if isinstance(tg, tuple) and tg[0] == 'r' else tg
                if isinstance(k, Lin) and isinstance(t, Lin):
                    for r2, sg in bits._triple(r, k, t):
                        res.append((r2, Lin(sg + 1)))
                else:
                    r.add_taint("binary search key")
                    res.append((r, r.sym(0, 2)))
            return res
        out += bsearch(self, c, s, sl, cmpf)
    return out


@prim(S + "contains")
def seq_contains(self, c):
    out = []
    for s, sl in self.slices(c.st.copy(), c.vs[0]):
        if sl is not None and sl[0] == 's':
            x = c.vs[1]
            for s1, v in c.M.load(s, x[1]):
                A = s1.arr[sl[1]]
                if A.ek in ('cat', 'pt') and (isinstance(v, Lin) or v[0] == 'd') and all(g.single for g in A.segs):
                    lv = v if isinstance(v, Lin) else v[1]
                    g = False
                    for sg in A.segs:
                        e = sg.cl[0][1]
                        le = e if isinstance(e, Lin) else e[1]
                        q = ('eq', le.sub(lv))
                        g = q if g is False else ('or', g, q)
                    r = s1.fact(g)
                    out.append((s1, c.M.mkbool(g if r is None else r)))
                else:
                    return None
        elif sl is not None and not sl[3].t and sl[3].k <= 64:
            # constant table
            for s1, v in c.M.load(s, c.vs[1][1]):
                lv = v if isinstance(v, Lin) else v[1] if isinstance(v, tuple) and v[0] == 'd' else None
                g = False
                ok = lv is not None
                sz = c.M.p.types[sl[4]]["size"]
                for i in range(sl[3].k if ok else 0):
                    for s2, e in c.M.load(s1, ('C', sl[1], sl[2].addk(i * sz), sl[4])):
                        le = e if isinstance(e, Lin) else e[1] if isinstance(e, tuple) and e[0] == 'd' else None
                        if le is None:
                            ok = False
                            break
                        q = ('eq', le.sub(lv))
                        g = q if g is False else ('or', g, q)
                if ok:
                    r = s1.fact(g)
                    out.append((s1, c.M.mkbool(g if r is None else r)))
                else:
                    return None
        else:
            return None
    return out


@prim(S + "reverse")
def seq_reverse(self, c):
    out = []
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is not None and sl[0] == 's' and all(g.single for g in s.arr[sl[1]].segs) and s.is_eq(sl[2]) and s.is_eq(sl[3].sub(s.arr[sl[1]].n)):
            A = s.arr[sl[1]]
            vals = [g.rep(cl=(('?',) + g.cl[0][1:],)) for g in A.segs][::-1]
            s.arr[sl[1]] = A.rep(segs=tuple(g.rep(s=Lin(i), e=Lin(i + 1)) for i, g in enumerate(vals)))
            out.append((s, UNIT))
            continue
        for q in sort_slice(self, s, sl, 0):
            out.append((q, UNIT))
    return out


# ---------------------------------------------------------------- slice iterators
# value: ('t', (slice,))
@prim(S + "iter", S + "iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
      "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
      "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
      "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "core::slice::Iter::<'a, T>::new", "std::slice::Iter::<'a, T>::new")
def seq_iter(self, c):
    for s, sl in self.slices(c.st, c.vs[0]):
        if sl is not None and sl[0] == 's' and c.st.arr[sl[1]].ek == 'lz':
            # an arbitrary list is made up as it is read: once
            if c.st.memo.get(('read', c.st.arr[sl[1]].n)):
                c.st.add_taint("list read twice")
            c.st.memo[('read', c.st.arr[sl[1]].n)] = True
    return [(s, ('t', (sl,)) if sl is not None else ('T', 'iterator')) for s, sl in self.slices(c.st, c.vs[0])]


def iter_state(self, st, ref):
    """[(state, location, slice)]"""
    out = []
    loc = ref[1]
    for s, v in self.M.load(st, loc):
        if isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] in ('s', 'cs'):
            out.append((s, loc, v[1][0]))
        else:
            s.add_taint("iterator state")
            out.append((s, loc, None))
    return out


def iter_next(self, c, back, byval):
    out = []
    M = c.M
    for s, loc, sl in iter_state(self, c.st, c.vs[0]):
        if sl is None:
            # unknown iterator
            t = c.rty
            out.append((s.copy(), NONE))
            out.append((s, some(('T', 'iterator element'))))
            continue
        n = self.slen(sl)
        e, ne = s.split(('le', n))
        out += [(q, NONE) for q in e]
        if sl[0] == 's' and s.arr[sl[1]].ek == 'lz':
            for q in ne:
                for r, v in M.run_fn(M.p.roots["h_lazy_next"], [q.mem[('O', 'lazy')]], q, c.fr, c.sp):
                    if v == NONE or byval:
                        out.append((r, v))
                    else:
                        out.append((r, some(('r', ('A', M.new_array_from(r, [v[2][0]], 'o'), Lin(0), ())))))
            continue
        for q in ne:
            i = n.addk(-1) if back else Lin(0)
            ref = self.elem_ref(sl, i)
            nsl = self.sub(sl, Lin(0), n.addk(-1)) if back else self.sub(sl, Lin(1), n)
            for r in M.store(q, loc, ('t', (nsl,))):
                if byval:
                    for r2, v in M.load(r, ref[1]):
                        out.append((r2, some(v)))
                else:
                    out.append((r, some(ref)))
    return out


@prim("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def slice_next(self, c):
    return iter_next(self, c, False, False)


@prim("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def slice_next_back(self, c):
    return iter_next(self, c, True, False)


@prim("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next",
      "<std::str::Chars<'a> as std::iter::Iterator>::next")
def val_next(self, c):
    return iter_next(self, c, False, True)


@prim("<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back", "<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back",
      "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def val_next_back(self, c):
    return iter_next(self, c, True, True)


@prim("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len", "<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len",
      "<std::slice::Iter<'a, T> as std::iter::Iterator>::count", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::count", "<std::str::Chars<'a> as std::iter::Iterator>::count", "trait:std::iter::ExactSizeIterator::len#no")
def iter_len(self, c):
    out = []
    v = c.vs[0]
    if isinstance(v, tuple) and v[0] == 'r':
        l = iter_state(self, c.st, v)
        for s, _, sl in l:
            out.append((s, self.slen(sl) if sl is not None else s.sym(0, 1 << 40)))
        return out
    if isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 1 and v[1][0][0] in ('s', 'cs'):
        return [(c.st, self.slen(v[1][0]))]
    return None


@prim("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint", "<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint")
def iter_hint(self, c):
    out = []
    for s, _, sl in iter_state(self, c.st, c.vs[0]):
        n = self.slen(sl) if sl is not None else s.sym(0, 1 << 40)
        out.append((s, ('t', (n, some(n)))))
    return out


@prim("<std::str::Chars<'a> as std::iter::Iterator>::size_hint")
def chars_hint(self, c):
    n = c.st.sym(0, 1 << 40)
    return [(c.st, ('t', (Lin(0), some(n))))]


@prim("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone", "<std::str::Chars<'a> as std::clone::Clone>::clone")
def iter_clone(self, c):
    return c.M.load(c.st, c.vs[0][1])


@prim("std::slice::Iter::<'a, T>::as_slice", "core::slice::Iter::<'a, T>::as_slice")
def iter_as_slice(self, c):
    return [(s, sl if sl is not None else ('T', 'slice')) for s, _, sl in iter_state(self, c.st, c.vs[0])]


# ---------------------------------------------------------------- strings
def chars_of(self, st, v):
    """string value -> slice of characters"""
    if isinstance(v, tuple) and v[0] == 'r':
        return chars_of(self, st, self.M.load(st, v[1])[0][1])
    if isinstance(v, tuple) and v[0] == 'str':
        if isinstance(v[1], bytes):
            cs = [Lin(ord(x)) for x in v[1].decode("utf-8", "replace")]
            aid = self.M.new_array_from(st, cs, 'pt')
            return ('s', aid, Lin(0), Lin(len(cs)))
        return ('s', v[1], Lin(0), st.arr[v[1]].n)
    st.add_taint("string: %s" % show(v)[:40])
    return None


STR = "core::str::<impl str>::"


@prim(STR + "chars")
def str_chars(self, c):
    sl = chars_of(self, c.st, c.vs[0])
    return [(c.st, ('t', (sl,)) if sl is not None else ('T', 'chars'))]


def strval(self, st, v):
    while isinstance(v, tuple) and v[0] == 'r':
        v = self.M.load(st, v[1])[0][1]
    return v


@prim(STR + "is_empty", "std::string::String::is_empty")
def str_is_empty(self, c):
    v = strval(self, c.st, c.vs[0])
    if isinstance(v, tuple) and v[0] == 'str':
        if isinstance(v[1], bytes):
            return [(c.st, not v[1])]
        f = ('le', c.st.arr[v[1]].n)
        r = c.st.fact(f)
        return [(c.st, c.M.mkbool(f if r is None else r))]
    c.st.add_taint("string")
    return [(c.st, ('B', ('u', fresh_id())))]


@prim(STR + "len", "std::string::String::len")
def str_len(self, c):
    v = strval(self, c.st, c.vs[0])
    if isinstance(v, tuple) and v[0] == 'str':
        return [(c.st, self.str_blen(c.st, v))]
    c.st.add_taint("string")
    return [(c.st, c.st.sym(0, 1 << 40))]


@prim(STR + "is_ascii")
def str_is_ascii(self, c):
    v = strval(self, c.st, c.vs[0])
    if isinstance(v, tuple) and v[0] == 'str':
        if isinstance(v[1], bytes):
            return [(c.st, all(b < 128 for b in v[1]))]
        # all characters below 128
        out = [(c.st.copy(), False)]
        s = c.st
        A = s.arr[v[1]]
        segs = []
        ok = True
        for g in A.segs:
            if g.single:
                ok = ok and s.assume_le(g.cl[0][1].addk(-127))
                segs.append(g)
                continue
            for (cc, t, gid) in g.cl:
                if isinstance(t, Lin) and t.sym() is not None and t.sym() in s.z.grp:
                    s.Z().add(t.sym(), ZERO, 127)
                elif cc == 'C' and g.must:
                    ok = ok and s.assume_le(t.addk(-127))
            g = arrays.drop_empty(s, g)
            if not g.cl and not s.assume_le(g.e.sub(g.s)):
                ok = False
            segs.append(g)
        if ok and not s.dead:
            s.arr[v[1]] = A.rep(segs=tuple(segs))
            out.append((s, True))
        return out
    return None


@prim("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq#str", "<std::string::String as std::cmp::PartialEq>::eq", "std::string::impls::<impl std::cmp::PartialEq<str> for std::string::String>::eq",
      "<std::string::String as std::cmp::PartialEq<str>>::eq", "<std::string::String as std::cmp::PartialEq<&'a str>>::eq", "<str as std::cmp::PartialEq<std::string::String>>::eq", "<&'a str as std::cmp::PartialEq<std::string::String>>::eq",
      "<std::string::String as std::cmp::PartialEq<&str>>::eq", "<&str as std::cmp::PartialEq<std::string::String>>::eq")
def str_eq(self, c):
    a, b = strval(self, c.st, c.vs[0]), strval(self, c.st, c.vs[1])
    if a[0] == 'str' and b[0] == 'str':
        if isinstance(a[1], bytes) and isinstance(b[1], bytes):
            return [(c.st, a[1] == b[1])]
        if a == b:
            return [(c.st, True)]
        for x, y in ((a, b), (b, a)):
            if not isinstance(x[1], bytes):
                w = c.st.memo.get(('strval', x[1]))
                if w is not None:
                    x2 = ('str', w)
                    if isinstance(y[1], bytes):
                        return [(c.st, w == y[1])]
                    w2 = c.st.memo.get(('strval', y[1]))
                    if w2 is not None:
                        return [(c.st, w == w2)]
        if isinstance(a[1], bytes) or isinstance(b[1], bytes):
            u, k = (a[1], b[1]) if isinstance(b[1], bytes) else (b[1], a[1])
            import strlib
            f = strlib.feasible(c.st, u, k)
            if f is False:
                return [(c.st, False)]
            no = c.st.copy()
            no.memo[('strne', u, k)] = True
            if f is None:
                c.st.add_taint("text derived from another")
            c.st.memo[('strval', u)] = k
            m = c.st.memo.get(('blen', c.st.arr[u].n))
            if m is not None and not strlib.assume_eq(c.st, m.addk(-len(k))):
                return [(no, False)]
            return [(c.st, True), (no, False)]
        import fmtlib
        if ('pieces', a[1]) in c.st.memo or ('pieces', b[1]) in c.st.memo:
            r = fmtlib.same(c.st, a, b)
            if r is True or r is False:
                return [(c.st, r)]
            if r is None:
                c.st.add_taint("text put together")
        return [(c.st, ('B', ('u', fresh_id())))]
    c.st.add_taint("string equality")
    return [(c.st, ('B', ('u', fresh_id())))]


@prim("<std::string::String as std::convert::AsRef<str>>::as_ref", "<std::string::String as std::convert::AsRef>::as_ref", "<std::string::String as std::borrow::Borrow<str>>::borrow", "std::string::String::as_mut_str", "core::str::<impl std::convert::AsRef<str> for str>::as_ref", "<str as std::convert::AsRef<str>>::as_ref", "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "std::borrow::Cow::<'_, str>::as_ref#")
def str_ref(self, c):
    v = strval(self, c.st, c.vs[0])
    return [(c.st, v)]


@prim("std::str::<impl std::borrow::ToOwned for str>::to_owned", "alloc::str::<impl std::borrow::ToOwned for str>::to_owned", "<str as std::string::ToString>::to_string", "<std::string::String as std::convert::From<&str>>::from",
      "std::string::String::into_boxed_str", "<str as std::string::SpecToString>::spec_to_string", "<std::string::String as std::string::SpecToString>::spec_to_string", "std::boxed::convert::<impl std::convert::From<&str> for std::boxed::Box<str>>::from", "<std::boxed::Box<str> as std::convert::From<&str>>::from", "<std::boxed::Box<str> as std::convert::From<std::string::String>>::from", "std::string::<impl std::convert::From<std::string::String> for std::boxed::Box<str>>::from", "std::str::<impl std::convert::From<&str> for std::string::String>::from", "std::boxed::Box::<str>::into_string", "<std::string::String as std::clone::Clone>::clone", "std::str::<impl str>::to_string", "alloc::str::<impl str>::into_string")
def str_owned(self, c):
    v = strval(self, c.st, c.vs[0])
    if isinstance(v, tuple) and v[0] == 'str':
        return [(c.st, v)]
    return None


# ---------------------------------------------------------------- Cow
@prim("std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'_, B>::to_mut#")
def cow_owned(self, c):
    v = c.vs[0]
    if not (isinstance(v, tuple) and v[0] == 'e'):
        return None
    if v[1] == 1:
        return [(c.st, v[2][0])]
    x = v[2][0]
    if isinstance(x, tuple) and x[0] == 'str':
        return [(c.st, x)]
    out = []
    for s, sl in self.slices(c.st, x):
        out += to_vec(self, s, sl)
    return out


@prim("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref")
def cow_deref(self, c):
    out = []
    for s, v in c.M.load(c.st, c.vs[0][1]):
        if isinstance(v, tuple) and v[0] == 'e':
            x = v[2][0]
            if isinstance(x, tuple) and x[0] == 'str':
                out.append((s, x))
                continue
            out += [(q, sl if sl is not None else ('T', 'cow')) for q, sl in self.slices(s, x)]
        else:
            s.add_taint("cow")
            out.append((s, ('T', 'cow')))
    return out


# ---------------------------------------------------------------- ranges
def range_next(self, c, back):
    M = c.M
    out = []
    t = c.targ(0)
    lim = M.p.int_range(t) if t is not None else None
    if t is not None and M.p.types[t]["k"] not in ("int",):
        return None
    for s, v in M.load(c.st, c.vs[0][1]):
        if not (isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 2):
            return None
        a, b = M.as_int(s, v[1][0], t), M.as_int(s, v[1][1], t)
        ok, end = s.split(('le', a.sub(b).addk(1)))
        out += [(q, NONE) for q in end]
        for q in ok:
            nv = ('t', (a, b.addk(-1))) if back else ('t', (a.addk(1), b))
            for r in M.store(q, c.vs[0][1], nv):
                out.append((r, some(b.addk(-1) if back else a)))
    return out


@prim("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def rng_next(self, c):
    return range_next(self, c, False)


@prim("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def rng_next_back(self, c):
    return range_next(self, c, True)


@prim("std::iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next")
def rngfrom_next(self, c):
    M = c.M
    out = []
    t = c.targ(0)
    for s, v in M.load(c.st, c.vs[0][1]):
        a = M.as_int(s, v[1][0], t)
        for r in M.store(s, c.vs[0][1], ('t', (a.addk(1),))):
            out.append((r, some(a)))
    return out


def rinc_next(self, c, back):
    M = c.M
    out = []
    t = c.targ(0)
    if t is not None and M.p.types[t]["k"] not in ("int",):
        return None
    for s, v in M.load(c.st, c.vs[0][1]):
        if not (isinstance(v, tuple) and v[0] == 't' and len(v[1]) == 3):
            return None
        a, b, ex = M.as_int(s, v[1][0], t), M.as_int(s, v[1][1], t), M.as_bool(s, v[1][2])
        done, live = s.split(ex)
        out += [(q, NONE) for q in done]
        for q in live:
            gt, le = q.split(('le', b.sub(a).addk(1)))
            out += [(r, NONE) for r in gt]
            for r in le:
                lt, eq = r.split(('le', a.sub(b).addk(1)))
                for z in lt:
                    nv = ('t', (a, b.addk(-1), False)) if back else ('t', (a.addk(1), b, False))
                    for y in M.store(z, c.vs[0][1], nv):
                        out.append((y, some(b if back else a)))
                for z in eq:
                    for y in M.store(z, c.vs[0][1], ('t', (a, b, True))):
                        out.append((y, some(b if back else a)))
    return out


@prim("std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next")
def rngi_next(self, c):
    return rinc_next(self, c, False)


@prim("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back")
def rngi_next_back(self, c):
    return rinc_next(self, c, True)


# ---------------------------------------------------------------- cmp / mem / ptr
@prim("std::cmp::max", "std::cmp::Ord::max", "std::cmp::impls::<impl std::cmp::Ord for u32>::max", "std::cmp::impls::<impl std::cmp::Ord for usize>::max", "std::cmp::impls::<impl std::cmp::Ord for u64>::max", "std::cmp::impls::<impl std::cmp::Ord for u8>::max")
def cmp_max(self, c):
    if isinstance(c.vs[0], Lin) and isinstance(c.vs[1], Lin):
        return self.minmax(c.st, c.vs[0], c.vs[1], True)
    return None


@prim("std::cmp::min", "std::cmp::Ord::min", "std::cmp::impls::<impl std::cmp::Ord for u32>::min", "std::cmp::impls::<impl std::cmp::Ord for usize>::min", "std::cmp::impls::<impl std::cmp::Ord for u64>::min", "std::cmp::impls::<impl std::cmp::Ord for u8>::min")
def cmp_min(self, c):
    if isinstance(c.vs[0], Lin) and isinstance(c.vs[1], Lin):
        return self.minmax(c.st, c.vs[0], c.vs[1], False)
    return None


@prim("std::mem::replace")
def mem_replace(self, c):
    out = []
    for s, v in c.M.load(c.st, c.vs[0][1]):
        for r in c.M.store(s, c.vs[0][1], c.vs[1]):
            out.append((r, v))
    return out


@prim("std::mem::swap")
def mem_swap(self, c):
    out = []
    for s, x in c.M.load(c.st, c.vs[0][1]):
        for s2, y in c.M.load(s, c.vs[1][1]):
            for r in c.M.store(s2, c.vs[0][1], y):
                for q in c.M.store(r, c.vs[1][1], x):
                    out.append((q, UNIT))
    return out


@prim("std::mem::drop", "std::mem::forget")
def mem_drop(self, c):
    return [(c.st, UNIT)]


@prim("std::mem::take")
def mem_take(self, c):
    t = c.targ(0)
    ty = c.M.p.types[t]
    out = []
    for s, v in c.M.load(c.st, c.vs[0][1]):
        if isinstance(v, tuple) and v[0] == 'v':
            nv = new_vec(c.M, s, ty["args"][0] if ty.get("args") else None)
        elif isinstance(v, Lin):
            nv = Lin(0)
        elif isinstance(v, tuple) and v[0] == 'e' and ty.get("def", "").endswith("option::Option"):
            nv = NONE
        else:
            return None
        for r in c.M.store(s, c.vs[0][1], nv):
            out.append((r, v))
    return out


@prim("core::char::methods::<impl char>::from_u32", "std::char::from_u32", "core::char::convert::from_u32", "core::char::from_u32")
def char_from_u32(self, c):
    x = c.M.as_int(c.st, c.vs[0])
    out = []
    a, b = c.st.split(('le', x.addk(-0xD7FF)))
    out += [(s, some(x)) for s in a]
    for s in b:
        d, e = s.split(('le', x.addk(-0xDFFF)))
        out += [(q, NONE) for q in d]
        for q in e:
            f, g = q.split(('le', x.addk(-0x10FFFF)))
            out += [(z, some(x)) for z in f] + [(z, NONE) for z in g]
    return out


@prim("core::char::methods::<impl char>::from_u32_unchecked", "core::char::convert::<impl std::convert::From<char> for u32>::from")
def char_id(self, c):
    return [(c.st, c.vs[0])]


@prim("core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq", "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq")
def array_eq(self, c):
    M = c.M
    out = []
    for s, x in M.load(c.st, c.vs[0][1]):
        for s2, y in M.load(s, c.vs[1][1]):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 't' and len(x[1]) == len(y[1]) and all(isinstance(a, Lin) for a in x[1] + y[1]):
                f = True
                for a, b in zip(x[1], y[1]):
                    g = s2.fact(('eq', a.sub(b)))
                    g = ('eq', a.sub(b)) if g is None else g
                    f = g if f is True else (f if g is True else False if g is False or f is False else ('and', f, g))
                out.append((s2, M.mkbool(f)))
            else:
                return None
    return out


@prim("std::sync::OnceLock::<T>::get_or_init", "std::cell::OnceCell::<T>::get_or_init", "core::cell::once::OnceCell::<T>::get_or_init", "std::cell::once::OnceCell::<T>::get_or_init")
def once_init(self, c):
    v = c.vs[0]
    if not (isinstance(v, tuple) and v[0] == 'r' and v[1][0] == 'C' and not v[1][2].t):
        return None
    key = ('O', 'once', str(v[1][1]), v[1][2].k)
    ref = ('r', ('L', key, ()))
    if key in c.st.mem:
        return [(c.st, ref)]
    out = []
    for s, x in c.M.call_closure(c.fr, c.st, c.atys[1], c.vs[1], [], c.sp):
        s.mem[key] = x
        out.append((s, ref))
    return out
