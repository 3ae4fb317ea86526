"""Loads a mirdump JSON file: types, instances, constant memory."""
import json


class Prog:
    def __init__(self, path):
        # the binding sees the core crate through a module of its own
        d = json.loads(open(path).read().replace("witness::unicode_intervals::", "unicode_intervals::"))
        self.roots = d["roots"]
        self.insts = {int(k): v for k, v in d["insts"].items()}
        self.types = d["types"]
        self.allocs = d["allocs"]
        self.files = d["files"]
        self.statics = d["statics"]
        self.adts = d["adts"]
        self.fns = d["fns"]
        self.models = d["models"]
        for a in self.allocs:
            if "b" in a:
                a["bytes"] = bytes.fromhex(a["b"])
                a["ptrs"] = dict((o, p) for o, p in a["p"])
            if "init" in a:
                a["init"]["bytes"] = bytes.fromhex(a["init"]["b"])
                a["init"]["ptrs"] = dict((o, p) for o, p in a["init"]["p"])
        self.cfgs = {}

    def mem(self, aid):
        """(bytes, ptrs) of constant allocation aid"""
        a = self.allocs[aid]
        if "init" in a:
            a = a["init"]
        if "bytes" not in a:
            return None
        return a["bytes"], a["ptrs"]

    def ty(self, i):
        return self.types[i]

    def span(self, sp):
        if not sp:
            return "?"
        f = self.files[sp[0]]
        for mark in ("/repo/", "/verif/"):
            if mark in f:
                f = f.split(mark, 1)[1]
        if "/library/" in f:
            f = "std:" + f.split("/library/", 1)[1]
        return "%s:%d" % (f, sp[1])

    def is_unit_enum(self, t):
        ty = self.types[t]
        return ty["k"] == "adt" and ty["a"] == "enum" and len(ty["v"]) > 0 and all(not v["f"] for v in ty["v"])

    def int_range(self, t):
        ty = self.types[t]
        if ty["k"] == "int":
            w = ty["w"]
            if ty["s"]:
                return -(1 << (w - 1)), (1 << (w - 1)) - 1
            return 0, (1 << w) - 1
        if ty["k"] == "char":
            return 0, 0x10FFFF
        if ty["k"] == "bool":
            return 0, 1
        return None


def short(name):
    return name.replace("unicode_intervals::", "")


class CFG:
    """per-body: successors, loops (natural), topological order with loops collapsed, liveness"""

    def __init__(self, body):
        self.body = body
        B = body["blocks"]
        n = len(B)
        self.succ = [self._succ(b["t"]) for b in B]
        # reachable + rpo
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        self.rpo = order[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = [[] for _ in range(n)]
        for u in self.rpo:
            for v in self.succ[u]:
                self.pred[v].append(u)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.rpo[0]:
                    return False
                b = idom[b]

        loops = {}
        self.irreducible = False
        for u in self.rpo:
            for v in self.succ[u]:
                if num[v] <= num[u]:
                    if dom(v, u):
                        s = loops.setdefault(v, {v})
                        work = [u]
                        while work:
                            x = work.pop()
                            if x not in s:
                                s.add(x)
                                work.extend(self.pred[x])
                    else:
                        self.irreducible = True
        self.loops = loops
        # refs taken
        self.reftaken = set()
        for b in B:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "ref" and "*" not in [x for x in s[2][1][1] if isinstance(x, str)]:
                    self.reftaken.add(s[2][1][0])
        self._live()

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, b in t[2]:
                if b not in r:
                    r.append(b)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def _live(self):
        B = self.body["blocks"]
        n = len(B)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def u_place(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def u_op(o, u, d):
            if o["k"] in "pm":
                u_place(o["p"], u, d)

        def u_rv(r, u, d):
            k = r[0]
            if k in ("ref", "disc", "len"):
                u_place(r[1], u, d)
            elif k in ("use", "rep"):
                u_op(r[1], u, d)
            elif k == "agg":
                for o in r[2]:
                    u_op(o, u, d)
            elif k in ("bin", "chk"):
                u_op(r[2], u, d)
                u_op(r[3], u, d)
            elif k in ("un",):
                u_op(r[2], u, d)
            elif k == "cast":
                u_op(r[2], u, d)

        for i in self.rpo:
            u, d = use[i], deff[i]
            for s in B[i]["s"]:
                if s[0] == "=":
                    u_rv(s[2], u, d)
                    if not s[1][1]:
                        d.add(s[1][0])
                    else:
                        u_place(s[1], u, d)
                elif s[0] == "sd":
                    u_place(s[1], u, d)
                elif s[0] in ("x", "sl"):
                    if s[1] not in u:
                        d.add(s[1])
                elif s[0] == "assume":
                    u_op(s[1], u, d)
            t = B[i]["t"]
            if t[0] == "switch":
                u_op(t[1], u, d)
            elif t[0] == "call":
                if "dyn" in t[1]:
                    u_op(t[1]["dyn"], u, d)
                for o in t[2]:
                    u_op(o, u, d)
                if not t[3][1]:
                    d.add(t[3][0])
                else:
                    u_place(t[3], u, d)
            elif t[0] == "assert":
                u_op(t[1], u, d)
            elif t[0] == "ret":
                u.add(0)
        self.live_in = [set() for _ in range(n)]
        changed = True
        rev = self.rpo[::-1]
        while changed:
            changed = False
            for i in rev:
                out = set()
                for s in self.succ[i]:
                    out |= self.live_in[s]
                new = use[i] | (out - deff[i])
                if new != self.live_in[i]:
                    self.live_in[i] = new
                    changed = True
