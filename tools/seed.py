#!/usr/bin/env python3
"""seed.py DIR: DIR/spec.json {id, property, needs, what_it_breaks, edits: [[file, old, new]]} and DIR/main.rs.
Confirms the change in a scratch copy and keeps it in /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main(d):
    spec = json.load(open(d + "/spec.json"))
    out = "/verif/seeded/" + spec["id"]
    scratch = "/tmp/seed-scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    sh("git worktree prune; cp -a /repo %s" % scratch, "/")
    sh("git checkout -q -- . && git clean -fdq", scratch)
    shutil.copy(d + "/main.rs", out + "/main.rs")
    shutil.copy(HERE + "/seedlib/t.rs", out + "/t.rs")
    shutil.copy(HERE + "/seedlib/demo.sh", out + "/demo.sh")
    os.chmod(out + "/demo.sh", 0o755)
    r = sh(["bash", out + "/demo.sh"], scratch)
    if r.returncode != 0:
        print(spec["id"], "demo fails on the unchanged tree", r.stdout[-1500:]); return 1
    for f, old, new in spec["edits"]:
        p = scratch + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(spec["id"], "edit matches", s.count(old)); return 1
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", scratch).stdout
    open(out + "/patch.diff", "w").write(diff)
    t = sh("cargo test --offline --all-features 2>&1 | grep -E 'test result|FAILED|failed|error' ; exit ${PIPESTATUS[0]}", scratch, executable="/bin/bash",
           env=dict(os.environ, CARGO_TARGET_DIR="/tmp/seed-target", RUSTUP_TOOLCHAIN="1.90.0"))
    bad = "FAILED" in t.stdout or t.returncode != 0
    r = sh(["bash", out + "/demo.sh"], scratch)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
    print(spec["id"], "tests", "FAIL" if bad else "pass", "| demo with change:", r.returncode, r.stdout.strip().splitlines()[-1:] )
    if bad: print(t.stdout[-800:])
    shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad or r.returncode == 0 else 0
sys.exit(max(main(d) for d in sys.argv[1:]))
