#!/bin/bash
# Makes an ordinary library crate of the macro crate in /repo, so that what its
# macros do at compile time can run under the simulator.
# It is made twice: with the whole rule table (rubi_ops) and with a short one,
# a selection of the table's own sections and rules (rubi_short).
here=$(cd "$(dirname "$0")" && pwd)
src=/repo/macros
for name in rubi_ops rubi_short; do
out=$here/gen/$name
rm -rf "$out"; mkdir -p "$out"
cp -r $src/src "$out/src"
python3 - "$src" "$out" $name <<'P'
import os, re, sys
src, out, name = sys.argv[1:]
t = open(src + "/Cargo.toml").read()
t = re.sub(r'(?m)^name\s*=.*$', f'name = "{name}"', t, count=1)
t = re.sub(r'(?m)^proc-macro\s*=.*$', '', t)
t = re.sub(r'(?m)^(syn\s*=.*|\[dependencies\.syn\][^\[]*)$', '', t)
shim = os.path.join(os.path.dirname(os.path.dirname(out)), "shim")
t = re.sub(r'(?m)^\[dependencies\]$', f'[dependencies]\nsyn = {{ package = "syn_shim", path = "{shim}/syn" }}\nproc_macro = {{ package = "proc_macro_shim", path = "{shim}/proc_macro" }}', t, count=1)
open(out + "/Cargo.toml", "w").write(t)
l = open(out + "/src/lib.rs").read()
l = re.sub(r'#\[\s*proc_macro(_attribute|_derive)?\s*(\([^\]]*\))?\s*\]', '', l)
l += '''
/// Runs the macro as the compiler would.
pub fn load() {
    drop(integration_rules(proc_macro::TokenStream::new()))
}
'''
open(out + "/src/lib.rs", "w").write(l)
def balanced(x):
    return all(x.count(a) == x.count(b) for a, b in ["[]", "()", "{}"]) and '"' not in x
data = out + "/src/rubi.data"
if name == "rubi_short" and os.path.exists(data):
    secs = re.split(r'(?=\(\*FILE:)', open(data).read())
    keep, size = [], 0
    for i, s in enumerate(secs):
        if i > 2 and len(s) >= 1000:
            # the header and some rules that stand on one line
            head = re.match(r'\(\*FILE:.*?\*\)\n', s, re.S)
            rules = [l for l in s[head.end():].split("\n") if re.match(r'[A-Za-z]+\[.*:=.*[^;=&|+*/,-]$', l) and balanced(l)] if head else []
            s = head.group(0) + "\n" + "\n".join(rules[:20] if i == len(secs) - 1 else rules[i % 7:i % 7 + 1]) + "\n\n" if head else ""
        if size + len(s) < 12000 or i == len(secs) - 1:
            keep.append(s)
            size += len(s)
    open(data, "w").write("".join(keep))
P
done
