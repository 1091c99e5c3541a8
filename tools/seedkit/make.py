#!/usr/bin/env python3
"""make.py [id...]: writes /verif/seeded/<id>/ from defs.py, and confirms each in scratch copies of /repo."""
import json, os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
K = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, K)
from defs import D
try:
    import defs2; 
except ImportError: pass
import defs3, defs4, defs5, defs6, defs7, defs8, defs9
S = "/verif/seeded"
HEAD = "mod mini;\n#[allow(unused_imports)]\nuse mini::*;\n#[allow(unused_imports)]\nuse std::time::Duration;\n\n#[tokio::main]\nasync fn main() {"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    return r.returncode, r.stdout
def one(id):
    prop, needs, breaks, edits, demo = D[id]
    w = f"/tmp/sc/{id}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/sc", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    d = f"{S}/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ("mini.rs", "demo.sh"): shutil.copy(f"{K}/{f}", d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(HEAD + demo + "    std::process::exit(0);\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    try:
        rc0, out0 = sh(f"bash {d}/demo.sh", w)
        if rc0: return id, f"demo fails unpatched: {out0[-600:]}"
        for f, old, new in edits:
            t = open(f"{w}/{f}").read()
            if t.count(old) < 1: return id, f"edit not found: {f}: {old[:60]!r}"
            if t.count(old) > 1: print(id, "note: several places", f, old[:50])
            open(f"{w}/{f}", "w").write(t.replace(old, new, 1))
        rc, diff = sh("git diff", w)
        open(d + "/patch.diff", "w").write(diff)
        rc, out = sh("cargo test --offline --workspace -- --test-threads 8", w)
        ok = set(re.findall(r"test (\S+) \.\.\. ok", out))
        n = len([b for b in base if b.split("::", 1)[1] in ok])
        if rc or n != len(base): return id, f"build/tests: {n} of {len(base)} {out[-1200:]}"
        rc1, out1 = sh(f"bash {d}/demo.sh", w)
        if rc1 == 0: return id, f"demo passes patched {out1[-300:]}"
        return id, "confirmed: " + out1.strip().split("\n")[-1][:100] + (" [CRASH?]" if rc1 not in (101, 1) else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = sys.argv[1:] or list(D)
with ThreadPoolExecutor(3) as ex:
    for id, r in ex.map(one, ids): print(id, "->", r, flush=True)
