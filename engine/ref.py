"""Reference Unicode data (data/ucd.txt): general category of every code point in every bundled version."""
import os
import numpy as np

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "ucd.txt")
NCP = 0x110000


class Ref:
    """cats: abbreviation -> index as numbered by the program's UnicodeCategory; vers likewise"""

    def __init__(self, cat_names=None, ver_names=None):
        R, cur = {}, None
        for l in open(DATA):
            if l[0] == 'V':
                cur = R[l.strip()] = []
            else:
                a, c = l.split()
                cur.append((int(a, 16), c))
        self.raw = R
        allc = sorted({c for t in R.values() for _, c in t})
        self.abbrev = allc
        self.cat_names = list(cat_names) if cat_names else allc
        self.ver_names = list(ver_names) if ver_names else list(R)
        self.ok = sorted(self.cat_names) == allc
        self.cix = {c: i for i, c in enumerate(self.cat_names)}
        self.cat = {}
        for i, v in enumerate(self.ver_names):
            t = R.get(v)
            if t is None:
                continue
            a = np.full(NCP, 255, dtype=np.uint8)
            for k, (s, c) in enumerate(t):
                e = t[k + 1][0] if k + 1 < len(t) else NCP
                a[s:e] = self.cix.get(c, 255)
            self.cat[i] = a
        self.rng = {}

    def cat_range(self, ver, k):
        """[lo, hi] hull of category k"""
        r = self.rng.get((ver, k))
        if r is None:
            w = np.nonzero(self.cat[ver] == k)[0]
            r = self.rng[(ver, k)] = (int(w[0]), int(w[-1])) if len(w) else (0, -1)
        return r

    def ranges(self, ver, k):
        m = (self.cat[ver] == k).astype(np.int8)
        d = np.diff(np.concatenate([[0], m, [0]]))
        s = np.nonzero(d == 1)[0]
        e = np.nonzero(d == -1)[0] - 1
        return list(zip(s.tolist(), e.tolist()))
