"""Writes /verif/seeded/<id>/ from a description of a planted bug (see seeds.py). Not used by any check."""
import json, os, shutil, subprocess, sys
V = "/verif"
WT = "/tmp/seedwt"
ONLY = set(sys.argv[1:])
CARGO = open(f"{V}/tools/seed_template/Cargo.toml").read()
DEMO = open(f"{V}/tools/seed_template/demo.sh").read()
HELP = open(f"{V}/tools/seed_template/help.rs").read()

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout

def start():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    sh("git", "clone", "-q", "/repo", WT)

started = False
def bug(id, prop, needs, what, edits, main, deps="", go=None):
    global started
    if ONLY and id not in ONLY:
        return
    if not started:
        start(); started = True
    for f, old, new in edits:
        p = f"{WT}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = sh("git", "-C", WT, "diff")
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    d = f"{V}/seeded/{id}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(f"{d}/proj/src")
    open(f"{d}/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(DEMO)
    c = CARGO
    if deps:
        c = c.replace('serde_json = "1.0"\n', 'serde_json = "1.0"\n' + deps + "\n")
    open(f"{d}/proj/Cargo.toml", "w").write(c)
    open(f"{d}/proj/src/main.rs", "w").write(HELP + main)
    shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/proj/Cargo.lock")
    shutil.copytree(f"{V}/stubs", f"{d}/proj/stubs")
    if go:
        # a Go program, linked with the shared library
        os.makedirs(f"{d}/go")
        open(f"{d}/go/main.go", "w").write(go)
        shutil.copy(f"{V}/goexec/go.mod", f"{d}/go/go.mod")
        shutil.copy(f"{V}/tools/seed_template/demo-go.sh", f"{d}/demo.sh")
