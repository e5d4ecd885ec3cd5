#!/usr/bin/env python3
"""Single mutants (not part of any check): mut1.py FILE LINE OLD NEW CHECK... in the scratch copy /tmp/m1."""
import subprocess, sys
S="/tmp/m1"
subprocess.run(f"mkdir -p {S} && rsync -a --delete --exclude .git --exclude target /repo/ {S}/repo/ && rsync -a --exclude target /verif/mc/core /verif/mc/cin {S}/ && sed -i 's#/repo/cinereus#{S}/repo/cinereus#' {S}/cin/Cargo.toml", shell=True, check=True)
f,l,old,new=sys.argv[1:5]; l=int(l)
p=f"{S}/repo/cinereus/src/{f}"; ls=open(p).read().split("\n")
assert old in ls[l-1], ls[l-1]
ls[l-1]=ls[l-1].replace(old,new,1); open(p,"w").write("\n".join(ls))
r=subprocess.run("cargo build --release --offline -q", shell=True, cwd=f"{S}/cin")
if r.returncode: sys.exit("no build")
for c in sys.argv[5:]:
    r=subprocess.run(f"VERIF_ROOT={S}/vr ./target/release/mc-cin {c} quick", shell=True, cwd=f"{S}/cin", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(f"{f}:{l} {old!r} => {new!r}: {c} {'KILLED' if r.returncode==1 else 'survived' if r.returncode==0 else r.returncode}", flush=True)
