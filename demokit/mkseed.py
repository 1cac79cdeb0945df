#!/usr/bin/env python3
"""mkseed.py ID: reads /tmp/seeds/ID.py (PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN) , plants it in a scratch copy, confirms it and stores /verif/seeded/ID"""
import sys, os, subprocess, shutil, json
ID = sys.argv[1]; g = {}; exec(open("/tmp/seeds/%s.py" % ID).read(), g)
S = "/tmp/seedrepo"
def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if not os.path.isdir(S): sh("cp -a /repo %s" % S)
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
base = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(base); d = ROOT + "/seeded/" + ID
shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
shutil.copy(base + "/demo.sh", d); shutil.copy(base + "/Cargo.toml", d + "/demo"); shutil.copy(base + "/rt.rs", d + "/demo/src/rt.rs")
shutil.copy(ROOT + "/hx/Cargo.lock", d + "/demo/Cargo.lock")
sh("sed -i 's/name = \"hx\"/name = \"demo\"/' %s/demo/Cargo.lock" % d)
for m in ("sys", "b", "lang", "interp", "sched"): shutil.copy(ROOT + "/hx/src/%s.rs" % m, d + "/demo/src/")
if g.get("FEATURES"): sh("sed -i 's/default-features = false }/default-features = false, features = [%s] }/;t end;b;:end' %s/demo/Cargo.toml" % (g["FEATURES"], d)); sh("sed -i '/^rand/s/, features = .*/ }/' %s/demo/Cargo.toml" % d)
open(d + "/demo/src/main.rs", "w").write("#![allow(warnings)]\nextern crate alloc;\nmod rt; mod sys; mod b; mod lang; mod interp; mod sched;\nuse b::*; use lang::*; use sys::*; use sched::*; use interp::*;\n" + g["MAIN"].strip() + "\n")
for f, a, b in g["EDITS"]:
    s = open(S + "/" + f).read(); assert s.count(a) == 1, (s.count(a), a); open(S + "/" + f, "w").write(s.replace(a, b))
p = sh("git diff", cwd=S).stdout; open(d + "/patch.diff", "w").write(p)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
sh("git checkout -q -- .", cwd=S)
r = sh("bash %s/demo.sh" % d, cwd=S); print("demo clean:", r.returncode, r.stdout[-1500:] if r.returncode else ""); ok = r.returncode == 0
sh("git apply %s/patch.diff" % d, cwd=S)
r = sh("bash %s/demo.sh" % d, cwd=S); print("demo patched:", r.returncode, r.stdout[-300:]); ok &= r.returncode == 1 or r.returncode > 1 and "error" not in r.stdout
t = sh("cargo test --workspace --offline -- --skip test::process:: 2>&1 | grep -E '^test |^error' | sort", cwd=S, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable")).stdout
print("tests ok:", t.count("... ok"), "failed:", [l for l in t.split("\n") if l.startswith("test ") and not l.endswith("ok") or "error" in l][:5])
sh("git checkout -q -- .", cwd=S)
print("KEPT" if ok else "BAD", ID)
