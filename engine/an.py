"""Runs harness functions of the witness crate through the abstract interpreter."""
import time
from dom import Lin, L
from state import State, Ctx
from prog import Prog
from ref import Ref
import interp


def make_ref(p):
    cats = vers = None
    for t in p.types:
        if t["k"] == "adt" and t["def"] == "unicode_intervals::UnicodeCategory":
            cats = [v["n"] for v in t["v"]]
        if t["k"] == "adt" and t["def"] == "unicode_intervals::UnicodeVersion":
            vers = [v["n"] for v in t["v"]]
    return Ref(cats, vers)


def run(p, ref, root, ver=None, obs=True, trk=True, opts=None, deadline=None, cat=None, param=0):
    o = dict(opts or {})
    o["param"] = param
    m = interp.Machine(p, ref, deadline, o)
    st = State()
    keep = []
    if obs:
        st.Z().new(Ctx.C, 0, 0x10FFFF)
        st.Z().new(Ctx.KC, 0, len(ref.cat_names) - 1)
        keep += [Ctx.C, Ctx.KC]
    if ver is not None:
        a, b = (0, len(ref.ver_names) - 1) if ver == 'any' else (ver, ver)
        st.Z().new(Ctx.VER, a, b)
        keep.append(Ctx.VER)
    if cat is not None:
        st.assume_le(L(Ctx.KC).addk(-cat))
        st.assume_le(L(Ctx.KC).scale(-1).addk(cat))
        lo, hi = ref.cat_range(ver, cat)
        st.assume_le(L(Ctx.C).addk(-hi))
        st.assume_le(L(Ctx.C).scale(-1).addk(lo))
    tr = []
    if obs and trk:
        tr = [(64, L(Ctx.C).addk(-64 * i)) for i in range(4)] + [(32, L(Ctx.KC))]
        if trk == 'cat':
            tr = [(32, L(Ctx.KC))]
    st.glob = {"keep": tuple(keep), "trk": tuple(tr)}
    t0 = time.time()
    status = "done"
    try:
        rets = m.run_fn(p.roots[root], [], st, None, None)
    except interp.Timeout:
        status, rets = "timeout", []
    except interp.Unsupported as e:
        status, rets = "unsupported: %s" % e, []
    m.status = status
    m.rets = rets
    m.wall = time.time() - t0
    return m


def report(m):
    print(m.status, "%.2fs" % m.wall, "rets", len(m.rets), "oblig", m.obligations, "proved", m.proved, "peak", m.peak, "stmts", m.stmts)
    for k, a in m.alarms.items():
        print("ALARM", a["kind"], a["msg"], "in", a["fn"], "at", a["at"], "x%d" % a["n"], "TAINT %s" % a["taint"][:3] if a["taint"] else "")
    for k, v in list(m.unsup.items())[:12]:
        print("unsup", k, v)
