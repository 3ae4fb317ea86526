"""Builds the MIR dumper and dumps the witness program linked against /repo's current source."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    def __init__(self, what, text):
        Exception.__init__(self, what)
        self.what, self.text = what, text


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True, env=e)
    for kv in out.stdout.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    return e


def sh(cmd, e, cwd):
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=cwd)
    return r.returncode, r.stdout + r.stderr


def driver(e):
    rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")], e, os.path.join(VERIF, "driver"))
    if rc:
        raise BuildError("driver", out)
    return os.path.join(BUILD, "driver", "release", "mirdump")


def src_hash(crate):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "crates"), os.path.join(VERIF, "witness"), os.path.join(VERIF, "pybind"), os.path.join(VERIF, "driver")):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__", ".venv", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".txt", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Zub-checks=no"


PYCRATE = "crates/unicode-intervals-py"


def stage_py(crate="pybind"):
    """the binding's source as a crate of its own, with the harnesses as modules and stand-ins for pyo3
    (pystub: without the harnesses, for what its declarations say)"""
    d = os.path.join(BUILD, "stage-" + crate)
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(REPO, PYCRATE, "src")
    shutil.copytree(src, os.path.join(d, "src"))
    m = re.search(r'^version\s*=\s*"([^"]+)"', open(os.path.join(REPO, PYCRATE, "Cargo.toml")).read(), re.M)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "witness"\nversion = "%s"\nedition = "2021"\n\n[lib]\npath = "src/lib.rs"\n\n[dependencies]\n' % (m.group(1) if m else "0.0.0")
                + 'unicode_intervals_core = { package = "unicode-intervals", path = "%s/crates/unicode-intervals" }\n' % REPO
                + 'pyo3 = { path = "%s/pybind/pyo3" }\n\n[workspace]\n' % VERIF)
    with open(os.path.join(d, "src", "lib.rs"), "a") as f:
        if crate == "pystub":
            return d
        f.write("\n#[allow(unused_extern_crates)]\nextern crate unicode_intervals_core as unicode_intervals;\n")
        for n, q in (("v", "witness/src/v.rs"), ("m", "witness/src/m.rs"), ("pyh", "pybind/pyh.rs")):
            f.write('#[allow(unused, clippy::all)]\n#[path = "%s/%s"]\npub mod %s;\n' % (VERIF, q, n))
    return d


def dump(crate="witness", statics="unicode_intervals", features=()):
    """path of the dump of a witness crate (witness, or pybind: the Python binding)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        drv = driver(e)
        out = os.path.join(BUILD, "%s-%s.json" % (crate, src_hash(crate)))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith(crate + "-") and f.endswith(".json"):
                os.remove(os.path.join(BUILD, f))
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=e).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        tmp = out + ".tmp"
        e.update(MIRDUMP_CRATE="witness", MIRDUMP_OUT=tmp, MIRDUMP_CONF=os.path.join(VERIF, "driver", "conf.txt"), MIRDUMP_STATICS=statics,
                 RUSTUP_TOOLCHAIN="nightly", RUSTC_WRAPPER=drv, RUSTFLAGS=FLAGS)
        if crate in ("pybind", "pystub"):
            wd = stage_py(crate)
            e["RUSTFLAGS"] += " -Zcrate-attr=feature(try_trait_v2)"
        else:
            wd = os.path.join(VERIF, crate)
        os.utime(os.path.join(wd, "src", "lib.rs"))
        # the freshness of path dependencies goes by modification times: build them anew
        tgt = os.path.join(BUILD, "target-" + crate)
        cmd = ["cargo", "check", "--offline", "--target-dir", tgt]
        if features:
            cmd += ["--features", ",".join(features)]
        for d in ("unicode-intervals",) + (("pyo3", "pyo3-stub-macros") if crate in ("pybind", "pystub") else ()):
            sh(["cargo", "clean", "--offline", "-p", d, "--target-dir", tgt], e, wd)
        rc, txt = sh(cmd, e, wd)
        if rc or not os.path.exists(tmp):
            raise BuildError(crate, txt)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    try:
        print(dump())
        print(dump("pybind"))
        print(dump("pystub"))
    except BuildError as x:
        print(x.what, x.text)
        sys.exit(0 if x.what in ("witness", "pybind") else 2)
