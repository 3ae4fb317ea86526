"""Development-time only: writes data/ucd.txt (run-length general categories per Unicode version) from the tables
of the pinned revision, after checking partition and canonical form.  Checks never run this."""
import glob
import os
import re
import sys

ABB = dict(zip("CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER_NUMBER LINE_SEPARATOR LOWERCASE_LETTER MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK OPEN_PUNCTUATION OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE SPACE_SEPARATOR SPACING_MARK SURROGATE TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER".split(),
               "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()))
out = open(sys.argv[2], "w")
fs = sorted(glob.glob(sys.argv[1] + "/v*.rs"), key=lambda f: [int(x) for x in re.findall(r"\d+", os.path.basename(f))])
for f in fs:
    s = open(f).read()
    ver = "V" + os.path.basename(f)[1:-3]
    cat = [None] * 0x110000
    for m in re.finditer(r"pub const (\w+): &'static \[\(u32, u32\)\]\s*=\s*&\[(.*?)\];", s, re.S):
        last = -2
        for a, b in re.findall(r"\((\d+), (\d+)\)", m.group(2)):
            a, b = int(a), int(b)
            assert a > last + 1 and b >= a, (f, m.group(1), a)
            last = b
            for c in range(a, b + 1):
                assert cat[c] is None
                cat[c] = ABB[m.group(1)]
    assert None not in cat
    out.write(ver + "\n")
    i = 0
    while i < 0x110000:
        j = i
        while j < 0x110000 and cat[j] == cat[i]:
            j += 1
        out.write("%x %s\n" % (i, cat[i]))
        i = j
out.close()
