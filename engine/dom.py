"""Numeric domain: linear expressions and a zone (difference-bound) domain with summary dimensions."""
import itertools
import numpy as np

INF = 1 << 58
HALF = 1 << 57
ZERO = 0  # the symbol that is the constant 0

_counter = itertools.count(1000)


def fresh_id():
    return next(_counter)


class Lin:
    """k + sum coef*sym, immutable."""
    __slots__ = ("k", "t", "_h")

    def __init__(self, k, t=()):
        self.k = k
        self.t = t
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.t == o.t

    def __ne__(self, o):
        return not (isinstance(o, Lin) and self.k == o.k and self.t == o.t)

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.k, self.t))
        return h

    def __repr__(self):
        s = "+".join(("%s" % n(s_) if c == 1 else "%d*%s" % (c, n(s_))) for s_, c in self.t)
        if not s:
            return str(self.k)
        return s + ("%+d" % self.k if self.k else "")

    def is_const(self):
        return not self.t

    def addk(self, k):
        return self if k == 0 else Lin(self.k + k, self.t)

    def add(self, o, m=1):
        if not o.t:
            return self.addk(o.k * m)
        if not self.t and m == 1:
            return Lin(self.k + o.k, o.t)
        d = dict(self.t)
        for s, c in o.t:
            v = d.get(s, 0) + c * m
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.k + o.k * m, tuple(sorted(d.items())))

    def sub(self, o):
        return self.add(o, -1)

    def scale(self, m):
        if m == 1:
            return self
        if m == 0:
            return Lin(0)
        return Lin(self.k * m, tuple((s, c * m) for s, c in self.t))

    def subst(self, mp):
        """mp: sym -> Lin"""
        if not any(s in mp for s, _ in self.t):
            return self
        r = Lin(self.k)
        for s, c in self.t:
            if s in mp:
                r = r.add(mp[s], c)
            else:
                r = r.add(Lin(0, ((s, 1),)), c)
        return r

    def sym(self):
        """the symbol if this is exactly one symbol, else None"""
        if self.k == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def base(self):
        """(sym, k) if this is sym+k"""
        if len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0], self.k
        return None


names = {}


def n(s):
    return names.get(s, "s%d" % s)


def L(s):
    return Lin(0, ((s, 1),))


def K(k):
    return Lin(k)


class Zone:
    """x_i - x_j <= M[i,j]. Optional (summary) symbols belong to a group and may denote no element at all:
    no derivation may pass *through* them unless an endpoint is in the same group."""
    __slots__ = ("M", "ix", "syms", "grp", "dead")

    def __init__(self):
        self.M = np.zeros((1, 1), dtype=np.int64)
        self.ix = {ZERO: 0}
        self.syms = [ZERO]
        self.grp = {}      # sym -> group id (summary) ; absent = mandatory
        self.dead = False

    def copy(self):
        z = Zone.__new__(Zone)
        z.M = self.M.copy()
        z.ix = dict(self.ix)
        z.syms = list(self.syms)
        z.grp = dict(self.grp)
        z.dead = self.dead
        return z

    def has(self, s):
        return s in self.ix

    def new(self, s, lo=None, hi=None, grp=None):
        n0 = len(self.syms)
        M = np.full((n0 + 1, n0 + 1), INF, dtype=np.int64)
        M[:n0, :n0] = self.M
        M[n0, n0] = 0
        self.M = M
        self.ix[s] = n0
        self.syms.append(s)
        if grp is not None:
            self.grp[s] = grp
        if lo is not None:
            self.add(ZERO, s, -lo)
        if hi is not None:
            self.add(s, ZERO, hi)

    def clone_syms(self, pairs, grp_of):
        """pairs: [(old, new)] expand: each new gets old's relations to every other symbol; relations among the
        new symbols copy those among the old ones. grp_of: new -> group or None."""
        n0 = len(self.syms)
        m = len(pairs)
        idx = np.array(list(range(n0)) + [self.ix[o] for o, _ in pairs])
        M = self.M[np.ix_(idx, idx)]
        # old-new relations: unknown (different elements)
        olds = [self.ix[o] for o, _ in pairs]
        for a in range(m):
            for o in olds:
                M[n0 + a, o] = INF
                M[o, n0 + a] = INF
        self.M = M
        for a, (o, nw) in enumerate(pairs):
            self.ix[nw] = n0 + a
            self.syms.append(nw)
            g = grp_of.get(nw)
            if g is not None:
                self.grp[nw] = g

    def rename(self, a, b):
        """rename symbol a to (unused) b"""
        i = self.ix.pop(a)
        self.ix[b] = i
        self.syms[i] = b
        if a in self.grp:
            self.grp[b] = self.grp.pop(a)

    def keep(self, keepset):
        ks = [s for s in self.syms if s == ZERO or s in keepset]
        if len(ks) == len(self.syms):
            return
        idx = np.array([self.ix[s] for s in ks])
        self.M = self.M[np.ix_(idx, idx)]
        self.syms = ks
        self.ix = {s: i for i, s in enumerate(ks)}
        self.grp = {s: g for s, g in self.grp.items() if s in self.ix}

    def make_mandatory(self, syms):
        for s in syms:
            self.grp.pop(s, None)
        # propagate: close through these nodes now
        for s in syms:
            k = self.ix[s]
            M = self.M
            c = M[:, k][:, None] + M[k, :][None, :]
            np.minimum(M, c, out=M)
            M[M > HALF] = INF
        self._check()

    def _check(self):
        d = np.diagonal(self.M)
        if (d < 0).any():
            for i in np.nonzero(d < 0)[0]:
                if self.syms[i] not in self.grp:
                    self.dead = True
                    return

    def bound(self, x, y):
        i = self.ix.get(x)
        j = self.ix.get(y)
        if i is None or j is None:
            return INF
        return int(self.M[i, j])

    def add(self, x, y, c):
        """x - y <= c"""
        if self.dead:
            return
        M = self.M
        i = self.ix[x]
        j = self.ix[y]
        if c >= HALF or M[i, j] <= c:
            return
        if c < -HALF:
            c = -HALF
        gx = self.grp.get(x)
        gy = self.grp.get(y)
        if gx is None and gy is None:
            a = M[:, i] + c
            cand = a[:, None] + M[j, :][None, :]
            np.minimum(M, cand, out=M)
            M[M > HALF] = INF
        else:
            rows = slice(None) if gx is None else np.array([self.ix[s] for s in self.syms if self.grp.get(s) == gx])
            cols = slice(None) if gy is None else np.array([self.ix[s] for s in self.syms if self.grp.get(s) == gy])
            a = M[rows, i] + c
            b = M[j, cols]
            cand = a[:, None] + b[None, :]
            if gx is None:
                sub = M[:, cols]
                np.minimum(sub, cand, out=sub)
                sub[sub > HALF] = INF
                M[:, cols] = sub
            elif gy is None:
                sub = M[rows, :]
                np.minimum(sub, cand, out=sub)
                sub[sub > HALF] = INF
                M[rows, :] = sub
            else:
                ixx = np.ix_(rows, cols)
                sub = M[ixx]
                np.minimum(sub, cand, out=sub)
                sub[sub > HALF] = INF
                M[ixx] = sub
        # feasibility
        d = np.diagonal(M)
        if (d < 0).any():
            self._check()

    def mandatory(self):
        return np.array([i for i, s in enumerate(self.syms) if s not in self.grp])

    def group_empty(self, g):
        for s, gg in self.grp.items():
            if gg == g and self.M[self.ix[s], self.ix[s]] < 0:
                return True
        return False

    def dump(self, maxn=60):
        out = []
        for i, s in enumerate(self.syms[:maxn]):
            for j, t in enumerate(self.syms[:maxn]):
                if i != j and self.M[i, j] < HALF:
                    if t == ZERO:
                        out.append("%s<=%d" % (n(s), self.M[i, j]))
                    elif s == ZERO:
                        out.append("%s>=%d" % (n(t), -self.M[i, j]))
                    else:
                        out.append("%s-%s<=%d" % (n(s), n(t), self.M[i, j]))
        return "; ".join(out)
