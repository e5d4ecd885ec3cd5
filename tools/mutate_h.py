#!/usr/bin/env python3
"""Mutation run (not part of any check): mutate_h.py FILE(relative to /repo) WORKER/WORKERS CHECK...  Logs to /tmp/muth.log"""
import os, re, subprocess, sys
f, w = sys.argv[1:3]; ids = sys.argv[3:]; w, nw = map(int, w.split("/"))
S = f"/tmp/muth{w}"
subprocess.run(f"mkdir -p {S}/mc && rsync -a --delete --exclude .git --exclude target /repo/ {S}/repo/ && rsync -a --exclude target /verif/mc/ {S}/mc/ && grep -rl '/repo/' {S}/mc --include=Cargo.toml | xargs sed -i 's#\"/repo/#\"{S}/repo/#'", shell=True, check=True)
RULES = [(r" >= ", " > "), (r" > ", " >= "), (r" < ", " <= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1", ""), (r" - 1", ""), (r"\.rev\(\)", ""), (r"if !", "if "), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"), (r"return;", ""), (r"return (None|Ok\(\(\)\));", "{}"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\.any\(", ".all("), (r"\.max\(", ".min("), (r"\.skip\(1\)", ""), (r"\.is_empty\(\)", ".len() > 1"), (r"\+= 1", "+= 2"), (r"^(\s+)[a-z_.]+(\([^()]*\)|\.[a-z_]+\([^;]*\))\??;$", r"\1"), (r'"([a-z-]+)"', r'"\1x"')]
def sh(c, cwd, t):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, ""
out = open("/tmp/muth.log", "a")
p = f"{S}/repo/{f}"
orig = open(p).read()
end = -1
for m in re.finditer(r"^#\[cfg\(test\)\]\n(mod|pub mod) tests", orig, re.M):
    end = m.start(); break
lines = orig[:end if end > 0 else len(orig)].split("\n")
tail = orig[end:] if end > 0 else ""
muts = []
FROM = int(os.environ.get('MUT_FROM', 0))  # first line
for li, l in enumerate(lines):
    if li + 1 < FROM: continue
    if l.strip().startswith(("//", "debug!", "trace!", "use ", "#", "assert", "warn!", "info!")): continue
    for pat, rep in RULES:
        for m in re.finditer(pat, l):
            code = l[:m.start()]
            if "//" in code or '"' in code and not pat.startswith('"'): continue
            muts.append((li, l[:m.start()] + m.expand(rep) + l[m.end():]))
for k, (li, new) in enumerate(muts):
    if k % nw != w: continue
    open(p, "w").write("\n".join(lines[:li] + [new] + lines[li+1:]) + tail)
    rc, o = sh("cargo build --release --offline -q", f"{S}/mc/hot", 300)
    if rc: continue
    killed = None
    for i in ids:
        rc, o = sh(f"VERIF_ROOT={S}/vr ./target/release/mc-hot {i} quick", f"{S}/mc/hot", 300)
        if rc: killed = i; break
    out.write(f"{f}:{li+1} {'killed '+killed if killed else 'SURVIVED'}: {lines[li].strip()}  =>  {new.strip()}\n"); out.flush()
open(p, "w").write(orig)
out.write(f"DONE {f} {w}\n"); out.flush()
