#!/usr/bin/env python3
"""plant.py make  <bugs.py> [ids]   write /verif/seeded/<id>/ from a description file
   plant.py verify [ids]           scratch copy of /repo: applies, builds, stable tests pass, demo 0 -> nonzero
   plant.py check [ids]            apply to /repo, run the property's quick check, undo
"""
import sys, os, json, subprocess, shutil, importlib.util, tempfile, time
V = "/verif"; S = V + "/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the rust_dct checkout; exit 0 = behaves, nonzero = broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nrustdct = { path = "%s" }\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --release --offline --quiet || exit 2
timeout 200 "$d/target/release/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(path, ids):
    sp = importlib.util.spec_from_file_location("b", path); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for b in m.BUGS:
        if ids and b["id"] not in ids: continue
        wt = tempfile.mkdtemp(prefix="plant"); sh(f"git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x")
        for f, old, new in b["edits"]:
            s = open(f"{wt}/{f}").read()
            n = s.count(old)
            if not (n >= 1 and (n == 1 or b.get("all"))): print("EDIT", b["id"], f, "occurrences", n, old[:300])
            s = s.replace(old, new); open(f"{wt}/{f}", "w").write(s)
        diff = sh(f"git -C {wt} diff").stdout
        d = f"{S}/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff); open(d + "/demo.rs", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(wt)
def verify(ids):
    base = "/tmp/plantwt"; shutil.rmtree(base, ignore_errors=True); sh(f"cp -a /repo {base}"); sh(f"git -C {base} checkout -q -- .")
    for i in ids:
        d = f"{S}/{i}"; t0 = time.time()
        r0 = sh(f"cd {base} && {d}/demo.sh"); a = sh(f"git -C {base} apply {d}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
        t = sh(f"cd {base} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
        ok = t.stdout.count("... ok"); bad = [l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l][:5]
        r1 = sh(f"cd {base} && {d}/demo.sh")
        sh(f"git -C {base} checkout -q -- .")
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and not bad
        print(i, "OK" if good else "BAD", f"tests ok={ok} {bad} demo clean={r0.returncode} patched={r1.returncode} {time.time()-t0:.0f}s", "" if good else (r0.stdout[-600:] + r1.stdout[-600:]), flush=True)
    shutil.rmtree(base, ignore_errors=True)
def check(ids):
    for i in ids:
        d = f"{S}/{i}"; p = json.load(open(d + "/meta.json"))["property"]
        if sh("git -C /repo status --porcelain").stdout.strip(): print("dirty /repo"); return
        sh(f"git -C /repo apply {d}/patch.diff"); t0 = time.time()
        try: r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {p}")
        finally: sh("git -C /repo checkout -q -- .")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time()-t0:.0f}s", (r.stdout.splitlines() or [""])[-1][:100] if not v else " ".join(r.stdout.splitlines()[-4:])[:260], flush=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1], a[2:])
    else:
        ids = a[1:] or sorted(os.listdir(S)); (verify if a[0] == "verify" else check)(ids)
