mk () 
{ 
    d=/verif/seeded/$1;
    mkdir -p $d;
    cat > $d/main.rs;
    cat > $d/demo.sh <<'E'
#!/bin/bash
# builds main.rs beside this file against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nunicode-intervals = { path = "%s/crates/unicode-intervals" }\n[workspace]\n' "$repo" > "$t/Cargo.toml"
cd "$t" && cargo run -q --offline --target-dir "$t/target"
E

    python3 - "$d" "$2" "$3" "$4" <<'E'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
E

}
