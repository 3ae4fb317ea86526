#!/bin/bash
# tools/try.sh NAME PATCH PROP... : run checks against a scratch copy of /repo with PATCH applied ('-' = none)
n=$1; patch=$2; shift 2
w=/tmp/w/$n
rm -rf "$w"; mkdir -p "$w/repo" "$w/verif"
(cd /repo && tar cf - --exclude=./target --exclude=./.git --exclude='*.so' .) | tar xf - -C "$w/repo"
(cd /verif && tar cf - --exclude=./build/target* --exclude=./seeded --exclude=./.git --exclude=./evidence .) | tar xf - -C "$w/verif"
mkdir -p "$w/verif/evidence"
[ "$patch" = - ] || (cd "$w/repo" && git init -q . && git apply "$patch") || { echo "$n: patch does not apply"; rm -rf "$w"; exit 1; }
sed -i "s#\"/repo/#\"$w/repo/#" "$w"/verif/*/Cargo.toml
[ -n "$TESTS" ] && (. /opt/vp/env.sh; cd "$w/repo" && cargo test --workspace --offline --target-dir /tmp/w/target-$n > "$w/test.log" 2>&1; echo "$n: cargo test $? $(grep -c '^test .* FAILED' $w/test.log) failed"; rm -rf "/tmp/w/target-$n")
for p in "$@"; do
  (cd "$w/verif" && VERIF_REPO="$w/repo" timeout 900 python3-vt -B engine/check.py $p > "$w/$p.out" 2>&1; echo "$n $p rc=$? $(grep -m1 -o 'VIOLATION.*' $w/$p.out | cut -c1-60) | $(grep -E '^(undecided|UNDEC|violation|  )' $w/$p.out | head -${LINES_:-2} | cut -c1-230)| $(tail -1 $w/$p.out | cut -c1-130)")
done
[ -n "$KEEP" ] || rm -rf "$w"
