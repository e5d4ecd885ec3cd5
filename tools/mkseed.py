#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE (python) defines SEEDS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo)}.
Writes seeded/<id>/ and confirms it on /repo: builds, stable tests pass, demo fails with and passes without it; also says whether the property's quick check catches it."""
import json, os, shutil, subprocess, sys
R, V = "/repo", "/verif"
def sh(c, cwd=R, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
only = set(a for a in sys.argv[1:] if not a.endswith(".py"))
for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
    ns = {}
    exec(open(f).read(), ns)
    for sid, s in ns["SEEDS"].items():
        if only and sid not in only: continue
        assert not sh("git status --short")[1].strip(), "repo dirty"
        d = f"{V}/seeded/{sid}"
        os.makedirs(d, exist_ok=True)
        try:
            for (file, old, new) in s["edits"]:
                p = f"{R}/{file}"
                t = open(p).read()
                assert t.count(old) == 1, (sid, file, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff")[1]
            open(f"{d}/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            kit = s.get("kit", "demo")
            for x in os.listdir(f"{V}/tools/{kit}"):
                src = f"{V}/tools/{kit}/{x}"
                (shutil.copytree(src, f"{d}/{x}", dirs_exist_ok=True) if os.path.isdir(src) else shutil.copy(src, d))
            open(f"{d}/main.rs", "w").write(s["demo"])
            rc, o = sh("bash /opt/vp/build.sh")
            assert rc == 0, o[-3000:]
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            res = json.load(open("/tmp/seed_t.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            txt = json.dumps(res)
            passed = res.get("passed") or [k for k, v in res.items() if v in (True, "pass", "passed")]
            bad = [x for x in stable if x not in passed]
            rc_bug, out_bug = sh(f"bash {d}/demo.sh")
            c = s.get("check", s["property"])
            rc_chk, out_chk = sh(f"VERIF_ROOT=/tmp/vr_seed bash {V}/mc/check.sh {c} quick", cwd=V)
        finally:
            sh("git checkout -- .")
        rc_ok, out_ok = sh(f"bash {d}/demo.sh")
        ok = not bad and rc_bug not in (0, 3, 4) and rc_ok == 0
        print(f"{sid} [{s['property']}]: tests {'pass' if not bad else bad}; demo bug={rc_bug} clean={rc_ok}; check={'CAUGHT' if rc_chk==1 else 'MISSED' if rc_chk==0 else rc_chk}{'' if ok else '   <<<<<< NOT VALID'}", flush=True)
        if not ok: print(out_bug[-1500:], out_ok[-1500:])
        if rc_chk not in (0,1): print(out_chk[-2000:])
