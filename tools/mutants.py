#!/usr/bin/env python3
"""Editing aid (no check runs it).  mutants.py FILE [ONLY...]: runs hand-written
mutants through the library's tests and the quick checks, in a scratch clone.
FILE: blocks 'name: NAME ID...' followed by 'file: PATH' and
<<<< old ==== new >>>> blocks, as in plant.py."""
import os, re, shutil, subprocess, sys
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
base = "/tmp/mut/hand"
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"])
shutil.copytree("/verif/harness/src", base + "/harness/src")
t = open("/verif/harness/Cargo.toml").read().replace("/repo", base + "/repo")
open(base + "/harness/Cargo.toml", "w").write(t)
shutil.copy("/verif/known_findings.txt", base)
shutil.copy("/verif/MANIFEST.json", base)
e1 = dict(env, CARGO_TARGET_DIR=base + "/t1")
e2 = dict(env, CARGO_TARGET_DIR=base + "/t2", VERIF_DIR=base)

def run(cmd, cwd, e, timeout):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", base])
        return "timeout", ""

for blk in re.split(r"^name: ", open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, body = blk.split("\n", 1)
    name, *ids = head.split()
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    bad = False
    for part in re.split(r"^file: ", body, flags=re.M)[1:]:
        f, b = part.split("\n", 1)
        p = subprocess.run(["python3", "/verif/ed.py", base + "/repo/" + f.strip()], input=b, text=True, capture_output=True)
        if "ok" not in p.stdout:
            print(name, "EDIT", p.stdout, p.stderr[-300:])
            bad = True
    if not bad:
        rc, o = run("timeout 300 cargo test --workspace --offline -q -- --test-threads 4", base + "/repo", e1, 400)
        if "could not compile" in o:
            print(name, "NOBUILD", o[-1500:])
        elif rc != 0:
            print(name, "killed by the library's tests")
        else:
            rc, o = run("cargo build --offline -q --release", base + "/harness", e2, 600)
            if rc != 0:
                print(name, "harness does not build", o[-500:])
            for i in ids:
                rc, o = run(f"timeout 600 {base}/t2/release/pbt check {i}", base, e2, 620)
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                print(name, i, "caught" if v else "MISSED", rc, "" if v else o[-200:], flush=True)
    subprocess.run(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
    sys.stdout.flush()
shutil.rmtree(base, ignore_errors=True)
