"""Development-time only: compares data/ucd.txt with the copies of the Unicode general categories that happen to be in
this sandbox, none of which comes from /repo.  Checks never run this.  Run with python3-vt.

  12.1 .. 17.0  crosshair's unicode_data/*.json
  13.0          Java 17, 15.0 Python 3.12 and Perl 5.38, 17.0 Node 22
  9.0 .. 12.0   no copy: what Perl's Age property implies (assigned exactly if introduced by then), and the code points
                assigned then whose category differs from 12.1 are listed
"""
import json, os, re, subprocess, unicodedata
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 0x110000


def reference():
    d, cur = {}, None
    for l in open(os.path.join(V, "data", "ucd.txt")):
        l = l.strip()
        if l.startswith("V"):
            cur = d[l[1:].replace("_", ".")] = []
        elif l:
            a, c = l.split()
            cur.append((int(a, 16), c))
    out = {}
    for v, rs in d.items():
        x = [None] * N
        for (a, c), (b, _) in zip(rs, rs[1:] + [(N, "")]):
            x[a:b] = [c] * (b - a)
        out[v] = x
    return out


def compare(name, ref, got):
    bad = [c for c in range(N) if ref[c] != got[c]]
    print("%-28s %s" % (name, "equal (%d code points)" % N if not bad else "DIFFERS at %d code points: %s" % (len(bad), ["%X" % c for c in bad[:8]])))


def runs(text):
    x = [None] * N
    for l in text.split("\n"):
        if l.strip():
            a, b, c = l.split()
            x[int(a):int(b) + 1] = [c] * (int(b) + 1 - int(a))
    return x


def main():
    ref = reference()
    import crosshair
    for v in ref:
        f = os.path.join(os.path.dirname(crosshair.__file__), "unicode_data", v + ".json")
        if os.path.exists(f):
            x = [None] * N
            for c, g in json.load(open(f))["categories"].items():
                at = 0
                for gap, n in zip(g[::2], g[1::2]):
                    at += gap
                    if len(c) == 2:
                        x[at:at + n] = [c] * n
                    at += n
            compare("crosshair " + v, ref[v], x)
    compare("Python " + unicodedata.unidata_version, ref[unicodedata.unidata_version], [unicodedata.category(chr(c)) for c in range(N)])
    cats = sorted(set(ref["17.0.0"]))
    js = "const x=[];for(const g of %s){const r=new RegExp('^\\\\p{gc='+g+'}$','u');for(let c=0;c<0x110000;c++)if(r.test(String.fromCodePoint(c)))x.push(c+' '+c+' '+g)};console.log(x.join('\\n'))" % json.dumps(cats)
    ver = subprocess.run(["node", "-p", "process.versions.unicode"], capture_output=True, text=True).stdout.strip() + ".0"
    compare("Node " + ver, ref[ver], runs(subprocess.run(["node", "-e", js], capture_output=True, text=True).stdout))
    pl = "no warnings; for my $c (0..0x10FFFF) { for my $g (qw(%s)) { if (chr($c) =~ /^\\p{gc=$g}\\z/s) { print \"$c $c $g\\n\"; last } } }" % " ".join(cats)
    ver = subprocess.run(["perl", "-MUnicode::UCD", "-e", "print Unicode::UCD::UnicodeVersion()"], capture_output=True, text=True).stdout
    compare("Perl " + ver, ref[ver], runs(subprocess.run(["perl", "-e", pl], capture_output=True, text=True).stdout))
    ages = "no warnings; for my $c (0..0x10FFFF) { for my $g (qw(1.1 2.0 2.1 3.0 3.1 3.2 4.0 4.1 5.0 5.1 5.2 6.0 6.1 6.2 6.3 7.0 8.0 9.0 10.0 11.0 12.0 12.1)) { if (chr($c) =~ /^\\p{Age=$g}\\z/s) { print \"$c $c $g\\n\"; last } } }"
    age = runs(subprocess.run(["perl", "-e", ages], capture_output=True, text=True).stdout)
    num = lambda s: tuple(int(x) for x in s.split("."))[:2]
    last = ref["12.1.0"]
    for v in ("9.0.0", "10.0.0", "11.0.0", "12.0.0"):
        x = ref[v]
        # noncharacters have an age but are unassigned
        bad = [c for c in range(N) if (x[c] != "Cn") != (last[c] != "Cn" and age[c] is not None and num(age[c]) <= num(v))]
        ch = [c for c in range(N) if x[c] != "Cn" and x[c] != last[c]]
        print("%-28s %s; recategorised until 12.1: %s" % ("Perl ages " + v, "equal" if not bad else "DIFFERS at %s" % ["%X" % c for c in bad[:8]], ["%X %s->%s" % (c, x[c], last[c]) for c in ch]))


main()
