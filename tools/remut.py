#!/usr/bin/env python3
"""Editing aid (no check runs it).  remut.py LOG FILE:LINE:ID,ID...: runs mutants
that survived tools/mutate.py through the quick checks, in a scratch clone."""
import json, os, shutil, subprocess, sys
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
base = "/tmp/mut/re%d" % os.getpid()
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"])
shutil.copytree("/verif/harness/src", base + "/harness/src")
t = open("/verif/harness/Cargo.toml").read().replace("/repo", base + "/repo")
open(base + "/harness/Cargo.toml", "w").write(t)
shutil.copy("/verif/known_findings.txt", base)
shutil.copy("/verif/MANIFEST.json", base)
e2 = dict(env, CARGO_TARGET_DIR=base + "/t2", VERIF_DIR=base)
recs = [json.loads(l) for l in open(sys.argv[1])]
for a in sys.argv[2:]:
    f, line, ids = a.split(":")
    for r in recs:
        if r["r"] != "SURVIVED" or not r["file"].endswith(f) or r["line"] != int(line):
            continue
        p = base + "/repo/src/" + r["file"]
        s = open(p, newline="").read().split("\n")
        c = [i for i, l in enumerate(s) if l.strip() == r["old"].strip()]
        if not c:
            print(a, "no such line")
            continue
        i = min(c, key=lambda i: abs(i + 1 - int(line)))
        s[i] = r["new"].rstrip() + ("\r" if s[i].endswith("\r") else "")
        open(p, "w", newline="").write("\n".join(s))
        b = subprocess.run("cargo build --offline -q --release", shell=True, cwd=base + "/harness", env=e2, capture_output=True)
        if b.returncode:
            print(a, "does not build")
        else:
            for i in ids.split(","):
                o = subprocess.run(f"timeout 600 {base}/t2/release/pbt check {i}", shell=True, cwd=base, env=e2, capture_output=True, text=True).stdout
                print(a, r["new"].strip()[:70], i, "caught" if "VIOLATION" in o else "MISSED", flush=True)
                if "VIOLATION" in o:
                    break
        subprocess.run(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
shutil.rmtree(base, ignore_errors=True)
