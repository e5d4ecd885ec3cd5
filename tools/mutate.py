#!/usr/bin/env python3
"""Mutation run (not part of any check): applies small mechanical mutations to cinereus in a scratch copy and lists those no C check notices."""
import os, re, subprocess, sys, shutil, json
S = "/tmp/mut"; subprocess.run(f"mkdir -p {S} && rsync -a --delete --exclude .git --exclude target /repo/ {S}/repo/ && rsync -a --exclude target /verif/mc/core /verif/mc/cin {S}/ && sed -i 's#/repo/cinereus#{S}/repo/cinereus#' {S}/cin/Cargo.toml", shell=True, check=True)
IDS = ["C13","C11","C14","C02","C03","C04","C06","C08","C10","C15","C01","C09","C05","C07","C12"]
RULES = [(r" >= ", " > "), (r" > ", " >= "), (r" < ", " <= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1", ""), (r"\.rev\(\)", ""), (r"if !", "if "), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"), (r"return;", ""), (r"return false;", "return true;"), (r" 0\b", " 1"), (r"\.any\(", ".all("), (r"\.find\(", ".filter("), (r"\.max\(\)", ".min()"), (r"2\.0 \*", "1.0 *")]
def sh(c, cwd, t):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, ""
out = open("/tmp/mut.log", "a")
for f in ["matching.rs", "chawathe.rs", "tree.rs", "lib.rs"]:
    p = f"{S}/repo/cinereus/src/{f}"
    orig = open(p).read()
    end = orig.find("#[cfg(test)]\nmod tests")
    lines = orig[:end if end > 0 else len(orig)].split("\n")
    n = 0
    for li, l in enumerate(lines):
        if l.strip().startswith(("//", "debug!", "trace!", "use ", "#")): continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                code = l[:m.start()]
                if "//" in code or '"' in code: continue
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                t = "\n".join(lines[:li] + [new] + lines[li+1:]) + (orig[end:] if end > 0 else "")
                open(p, "w").write(t)
                rc, o = sh("cargo build --release --offline -q", f"{S}/cin", 300)
                if rc: 
                    continue
                killed = None
                for i in IDS:
                    rc, o = sh(f"VERIF_ROOT={S}/vr ./target/release/mc-cin {i} quick", f"{S}/cin", 400)
                    if rc: killed = i; break
                out.write(f"{f}:{li+1} {'killed '+killed if killed else 'SURVIVED'}: {l.strip()}  =>  {new.strip()}\n"); out.flush()
    open(p, "w").write(orig)
out.write("DONE\n"); out.flush()
