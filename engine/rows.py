"""Constant-table rules: the rows behind UnicodeVersion::intervals_for, read from the compiled crate's constant memory."""
import an
from state import show

_cache = {}


def rows(p, ref):
    """{(version index, category index in witness order): [(lo, hi)]}, names"""
    if "r" in _cache:
        return _cache["r"]
    out, bad = {}, []
    # witness order
    vers = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"]
    cats = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
    for v in range(11):
        for c in range(30):
            m = an.run(p, ref, "h_row", obs=False, param=v * 30 + c)
            if len(m.rets) != 1:
                bad.append((v, c, m.status))
                continue
            val = m.rets[0][1]
            if not (isinstance(val, tuple) and val[0] == 'cs' and not val[2].t and val[3] is not None and not val[3].t):
                bad.append((v, c, show(val)[:80]))
                continue
            _, aid, off, n, ety = val
            sz = m.cm.size(ety)
            r = []
            for i in range(n.k):
                d = m.cm.decode(aid, off.k + i * sz, ety)
                r.append((d[1][0].k, d[1][1].k))
            out[(v, c)] = r
    _cache["r"] = (out, bad, vers, cats)
    return _cache["r"]


def _prep(p, ref):
    from check import Finding
    out, bad, vers, cats = rows(p, ref)
    und = []
    for v, c, why in bad:
        und.append("row %s/%s not a constant slice: %s" % (vers[v], cats[c], why))
    return Finding, out, bad, vers, cats, und


def partition(p, ref):
    """P16"""
    Finding, out, bad, vers, cats, und = _prep(p, ref)
    f, o, d, n = [], 0, 0, 0
    for v in range(11):
        allr = []
        for c in range(30):
            r = out.get((v, c))
            if r is None:
                continue
            o += 1
            ok = True
            for i, (a, b) in enumerate(r):
                n += 1
                if a > b or b > 0x10FFFF:
                    ok = False
                    f.append(Finding("range|%s|%s" % (vers[v], cats[c]), "table %s, row %s: (%d, %d) is not a code point range" % (vers[v], cats[c], a, b)))
                    break
                if i and r[i - 1][1] + 1 >= a:
                    ok = False
                    f.append(Finding("order|%s|%s" % (vers[v], cats[c]), "table %s, row %s: (%d, %d) is not separated from the preceding (%d, %d)" % ((vers[v], cats[c], a, b) + r[i - 1])))
                    break
            d += ok
            allr += [(a, b, c) for a, b in r]
        if any((v, c) not in out for c in range(30)):
            continue
        o += 1
        allr.sort()
        nxt, ok = 0, True
        for a, b, c in allr:
            if a != nxt:
                ok = False
                f.append(Finding("cover|%s" % vers[v], "table %s: code point %d is in %s (row %s)" % (vers[v], min(a, nxt), "no row" if a > nxt else "two rows", cats[c])))
                break
            nxt = b + 1
        if ok and nxt != 0x110000:
            ok = False
            f.append(Finding("cover|%s" % vers[v], "table %s: code point %d is in no row" % (vers[v], nxt)))
        d += ok
    return f, o, d, {"rows": len(out), "intervals": n, "rows_not_read": und}


def reference(p, ref):
    """P17"""
    Finding, out, bad, vers, cats, und = _prep(p, ref)
    f, o, d = [], 0, 0
    vi = {n: i for i, n in enumerate(ref.raw)}
    for v in range(11):
        raw = None
        for k in ref.raw:
            if k.lstrip("V").replace("_", ".") == vers[v]:
                raw = ref.raw[k]
        if raw is None:
            f.append(Finding("ref|" + vers[v], "no reference data for %s" % vers[v]))
            continue
        want = {c: [] for c in cats}
        for i, (s, c) in enumerate(raw):
            e = raw[i + 1][0] - 1 if i + 1 < len(raw) else 0x10FFFF
            l = want[c]
            if l and l[-1][1] + 1 == s:
                l[-1] = (l[-1][0], e)
            else:
                l.append((s, e))
        for c in range(30):
            r = out.get((v, c))
            if r is None:
                continue
            o += 1
            w = want[cats[c]]
            if r == w:
                d += 1
            else:
                diff = sorted(set(r) ^ set(w))[:3]
                f.append(Finding("data|%s|%s" % (vers[v], cats[c]), "table %s, row %s differs from the Unicode data at %s" % (vers[v], cats[c], diff)))
    return f, o, d, {"rows": len(out), "rows_not_read": und}


def covers(big, small):
    """every interval of small inside big (both sorted canonical)"""
    i = 0
    for a, b in small:
        while i < len(big) and big[i][1] < a:
            i += 1
        if i >= len(big) or not (big[i][0] <= a and b <= big[i][1]):
            return (a, b)
    return None


def stability(p, ref):
    """P18: assigned code points stay assigned; Cs, Co, Zl, Zp and the C0/C1 controls never change"""
    Finding, out, bad, vers, cats, und = _prep(p, ref)
    f, o, d = [], 0, 0
    ci = {c: i for i, c in enumerate(cats)}
    for v in range(1, 11):
        a, b = out.get((v - 1, ci["Cn"])), out.get((v, ci["Cn"]))
        if a is not None and b is not None:
            o += 1
            x = covers(sorted(a), sorted(b))
            if x is None:
                d += 1
            else:
                f.append(Finding("unassigned|%s" % vers[v], "%s: %s is unassigned but was (partly) assigned in %s" % (vers[v], x, vers[v - 1])))
        for c in ("Cs", "Co", "Zl", "Zp", "Cc"):
            a, b = out.get((v - 1, ci[c])), out.get((v, ci[c]))
            if a is None or b is None:
                continue
            o += 1
            if a == b:
                d += 1
            else:
                f.append(Finding("fixed|%s|%s" % (c, vers[v]), "%s: category %s differs from %s" % (vers[v], c, vers[v - 1])))
    return f, o, d, {"rows": len(out), "rows_not_read": und}
