#!/usr/bin/env python3
"""Mutation analysis of the checks (an aid; no check runs it).

mutate.py OUT.jsonl COUNT SEED [WORKERS]: random one-line mutants of
/repo/src; those that build and pass the library's own tests are given to the
checks (pbt hunt).  Everything happens in /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, threading, time
OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = int(sys.argv[4]) if len(sys.argv) > 4 else 6
ROOT = "/tmp/mut"
FILES = ["dom.rs", "sax.rs", "xpath.rs", "xpath_impl/eval.rs", "xpath_impl/func.rs", "xpath_impl/lexer.rs",
         "xpath_impl/oper.rs", "xpath_impl/parser.rs", "xpath_impl/xitem.rs", "xpath_impl/xsequence.rs"]
DOM = "D01 D02 D03 D04 D05 D06 D07 D08 D09 D10 D12".split()
XP = "X01 X02 X03 X05 X06 X07 X08 X09 X10 X11 X12 X13 X14 X18 X20 X21 X22 X23 X24 X16 X15 X17 X04 X19".split()
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings", CARGO_BUILD_JOBS="2")

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r" \+ ", " - "), (r" - ", " + "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if ! ", "if "), (r"if ([a-z_]+[\(.])", r"if ! \1"),
       (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r" \* ", " + "), (r" / ", " * "),
       (r"\.iter\(\)", ".iter().rev()"), (r'"([^"{}]+)"', '""'), (r"'(.)'", "'~'"), (r"\.\. ?=", ".."), (r"\bOk\(true\)", "Ok(false)"),
       (r"\bget_left\b", "get_right"), (r"\bget_right\b", "get_left"), (r"Some\(([a-z_]+)\)$", r"None"),
       (r"\bis_empty\(\)", "len() == 1"), (r"\bbreak;", "continue;"), (r"return false", "return true"), (r"return true", "return false"),
       (r"\bf64::NAN\b", "0.0"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"),
       (r"\bfind\(", "rfind("), (r"\.push\((.*)\);", r".insert(0, \1);"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r" as i64", " as i32 as i64"),
       (r"DEL", "")]

# limits that only large or unusual values reach (MUT_OPS=limits)
LIMITS = [(r"\.iter\(\)", ".iter().take(5)"), (r"\.iter\(\)", ".iter().take(12)"), (r"\.chars\(\)", ".chars().take(9)"), (r"\.chars\(\)", ".chars().take(40)"),
          (r"\.len\(\)", ".len().min(6)"), (r"\.len\(\)", ".len().min(20)"), (r" as i64", " as i32 as i64"), (r" as i64", " as u8 as i64"),
          (r" as usize", " as u8 as usize"), (r" as f64", " as f32 as f64"), (r"\bvalue == ", "value as f32 == "), (r"== ([\w\.]+\(\)) \{", r".eq_ignore_ascii_case(&\1) {"),
          (r"\.is_empty\(\)", ".len() % 8 == 0"), (r" == 0\b", " % 16 == 0"), (r"\bi64::from_str", "i32::from_str"),
          (r"\.checked_(\w+)\(", r".wrapping_\1("), (r"\.splitn\(2,", ".rsplitn(2,"), (r"(\w+)\.push\((.*)\);", r"if \1.len() < 9 { \1.push(\2); }"), (r"(\w+)\.push\((.*)\);", r"if \1.len() < 40 { \1.push(\2); }"),
          (r"if (?!let)[^{]* \{\s*$", r"if false {"), (r"is_alphabetic\(\)", "is_ascii_alphabetic()"),
          (r"is_whitespace\(\)", "is_ascii_whitespace()"), (r"\.to_uppercase\(\)", ".to_ascii_uppercase()"), (r"\.to_lowercase\(\)", ".to_ascii_lowercase()"),
          (r"\.trim\(\)", ""), (r"\.rev\(\)", ""), (r"\.floor\(\)", ".trunc()"), (r"\.ceil\(\)", ".round()"),
          (r"\.round\(\)", ".floor()"), (r"\.abs\(\)", ""), (r"continue;", "break;"), (r"\.get_position\(\)", ".get_last()"), (r"\.get_last\(\)", ".get_position()"),
          (r"\.sort_by_doc_order\(.*\);", ";")]
# a clause, an alternative or an argument less, or exchanged (MUT_OPS=clauses)
CLAUSES = [(r" && [^&|{}]+(?=( \{|\)|;|$))", ""), (r" \|\| [^&|{}]+(?=( \{|\)|;|$))", ""), (r"(if|while|return) [^&|{}]+ && ", r"\1 "), (r"(if|while|return) [^&|{}]+ \|\| ", r"\1 "),
           (r" \| [\w:]+(\{[^}]*\}|\([^)]*\))?(?= (=>|\|))", ""), (r"[\w:]+(\{[^}]*\}|\([^)]*\))? \| (?=[\w:]+)", ""),
           (r"\((&?[\w\.\[\]]+), (&?[\w\.\[\]]+)\)", r"(\2, \1)"), (r"\((&?[\w\.\[\]]+), (&?[\w\.\[\]]+),", r"(\2, \1,"), (r", (&?[\w\.\[\]]+), (&?[\w\.\[\]]+)\)", r", \2, \1)"),
           (r"\.rev\(\)", ""), (r"\.clone\(\)\.", "."), (r"SWAP", ""), (r"UNARM", ""), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"),
           (r"\bsome\b", "every"), (r"(\w+)\.append\(&mut (\w+)\)", r"\2.append(&mut \1)"), (r"return Ok\((\w+)\);", "{}"), (r"^(\s*[^=]*)\?;", r"\1.ok();"),
           (r"IsEmpty|Empty", "Any"), (r"MoreThanOrEqualToZero", "MoreThanOrEqualToOne"), (r"MoreThanOrEqualToOne", "MoreThanOrEqualToZero"), (r"ZeroOrOne", "One"),
           (r"XSInteger", "XSDecimal"), (r"XSDecimal", "XSDouble"), (r"XSDouble", "XSInteger"), (r"XSString", "XSBoolean")]
if os.environ.get("MUT_OPS") == "limits":
    OPS = LIMITS
if os.environ.get("MUT_OPS") == "clauses":
    OPS = CLAUSES

def candidates():
    out = []
    for f in FILES:
        t = open("/repo/src/" + f, newline="").read().split("\n")
        for i, l in enumerate(t):
            s = l.strip()
            if s.startswith("#[cfg(test)]") or s.startswith("mod test"):
                break
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "cant_occur" in s or "macro_rules" in s:
                continue
            code = l.split("//")[0]
            for a, b in OPS:
                if a == "DEL":
                    if re.match(r"^\s*[a-z_][\w\.\[\]]*(\(|\.|\s*[+\-]?= )", code) and code.rstrip().endswith(";") and "let " not in code and "return" not in code:
                        out.append((f, i, None, ""))
                    continue
                if a == "SWAP":     # two statements exchanged: written as a change of two lines
                    n = t[i + 1].split("//")[0] if i + 1 < len(t) else ""
                    ok = lambda x: re.match(r"^\s*[a-z_*].*;\s*$", x) and not re.match(r"^\s*(return|break|continue|let)", x)
                    if ok(code) and ok(n):
                        out.append((f, i, a, (n.rstrip("\r"), l)))
                    continue
                if a == "UNARM":    # a match arm on one line is left to the arms after it
                    if re.match(r"^\s*[\w:]+(\(.*\)|\{.*\})? => .*,\s*$", code):
                        out.append((f, i, a, ""))
                    continue
                for k, m in enumerate(re.finditer(a, code)):
                    new = code[:m.start()] + m.expand(b) + code[m.end():] + l[len(code):]
                    if new != l and "ptr_eq" not in l:
                        out.append((f, i, a, new))
    return out

def run(cmd, cwd, e, timeout, out=None):
    try:
        r = subprocess.run("ulimit -v 6000000; " + cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable="/bin/bash", start_new_session=True)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", cwd])
        return "timeout", ""

if os.environ.get("MUT_LIST"):
    print(len(candidates())); [print(x) for x in candidates()[::40]]; sys.exit()
random.seed(SEED)
cs = candidates()
random.shuffle(cs)
# spread over lines
seen, pick = set(), []
for c in cs:
    if (c[0], c[1]) in seen:
        continue
    seen.add((c[0], c[1]))
    pick.append(c)
pick = pick[:COUNT]
print(len(cs), "candidates,", len(pick), "picked")
lock = threading.Lock()
done = open(OUT, "a")

def worker(k):
    base = f"{ROOT}/{SEED}-{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"])
    shutil.copytree("/verif/harness/src", base + "/harness/src")
    t = open("/verif/harness/Cargo.toml").read().replace("/repo", base + "/repo")
    open(base + "/harness/Cargo.toml", "w").write(t)
    e1 = dict(env, CARGO_TARGET_DIR=base + "/t1")
    e2 = dict(env, CARGO_TARGET_DIR=base + "/t2")
    while True:
        with lock:
            if not pick:
                break
            f, i, a, new = pick.pop()
        p = f"{base}/repo/src/{f}"
        t = open(p, newline="").read().split("\n")
        old = t[i]
        orig = list(t)
        if isinstance(new, tuple):
            t[i + 1] = new[1]
            rest, new = " <-> " + new[1].strip(), new[0]
        else:
            rest = ""
        t[i] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
        open(p, "w", newline="").write("\n".join(t))
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip() + rest)
        rc, o = run("timeout 200 cargo test --workspace --offline -q -- --test-threads 2", base + "/repo", e1, 300)
        if "error" in o and ("could not compile" in o):
            rec["r"] = "nobuild"
        elif rc != 0:
            rec["r"] = "tests"
        else:
            rc, o = run("cargo build --offline -q --release", base + "/harness", e2, 600)
            if rc != 0:
                rec["r"] = "harness-nobuild"
            else:
                ids = DOM + XP if f in ("dom.rs", "sax.rs") else XP + ["D10", "D12"]
                pbt = base + "/t2/release/pbt"
                rc, o = run(f"timeout 120 {pbt} hunt 400 {' '.join(ids)}", base, env, 130)
                if rc == 0:
                    rc, o = run(f"timeout 1200 {pbt} hunt 3000 {' '.join(ids)}", base, env, 1300)
                if rc == 0:
                    rec["r"] = "SURVIVED"
                else:
                    m = re.search(r"KILLED (\S+) (\d+) (.*)", o)
                    rec["r"] = "killed"
                    rec["by"] = m.group(1) if m else f"exit {rc} after {o.strip().splitlines()[-1:] }"
                    rec["msg"] = m.group(3)[:200] if m else ""
        open(p, "w", newline="").write("\n".join(orig))
        with lock:
            done.write(json.dumps(rec, ensure_ascii=False) + "\n")
            done.flush()
    shutil.rmtree(base, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[x.start() for x in ts]
[x.join() for x in ts]
