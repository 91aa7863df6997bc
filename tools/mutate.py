#!/usr/bin/env python3
"""Mutation campaign: small generic edits of one contract's source, each judged by the checks of its
family (any violation counts). Usage: mutate.py LANE CRATE PROPS [MAX [SEED]]
LANE is a scratch directory holding `repo` (a copy of /repo) and `verif` (a copy of /verif with build/).
Prints one line per mutant; the survivors are for reading."""
import os, random, re, subprocess, sys, time

lane, crate, props = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
runs = os.environ.get("MUT_RUNS", "500")
repo, verif = lane + "/repo", lane + "/verif"

SWAP = [(" <= ", " < "), (" < ", " <= "), (" >= ", " > "), (" > ", " >= "), (" == ", " != "), (" != ", " == "),
        (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" && ", " || "), (" || ", " && "),
        (" += ", " -= "), (" -= ", " += "), ("true", "false"), ("false", "true"), (".min(", ".max("), (".max(", ".min("),
        ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("predecessor_account_id", "signer_account_id"),
        ("is_ok()", "is_err()"), ("!self", "self"), ("saturating_sub", "wrapping_sub")]

def code_end(lines):
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\((all\()?test|^#\[cfg\(not\(target_arch", l) or re.match(r"\s*mod tests\b", l):
            return i
    return len(lines)

def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    end = code_end(lines)
    out = []
    for i in range(end):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith(("//", "use ", "#", "pub struct", "pub enum", "pub fn", "fn ", "pub trait", "impl", "}")):
            continue
        if re.search(r"panic|env::log|_GAS|gas|^\"|format!", t):
            continue
        code = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), l)
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), code):
                out.append((i, i, l[:m.start()] + b + l[m.end():], f"{a.strip()} -> {b.strip()}"))
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.])", code):
            n = int(m.group(1).replace("_", ""))
            out.append((i, i, l[:m.start()] + str(n + 1) + l[m.end():], f"{n} -> {n+1}"))
            if n > 1:
                out.append((i, i, l[:m.start()] + str(n - 1) + l[m.end():], f"{n} -> {n-1}"))
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
        if m:
            for v in ("true", "false"):
                out.append((i, i, m.group(1) + v + m.group(3), f"if {v}"))
        # a whole statement
        if re.match(r"\s*(assert|self\.|this\.|env::|Promise::|ext_|account\.|\*|[a-z_]+ = |[a-z_.]+ [+-]= |return;|continue;)", l):
            j, s = i, ""
            while j < end and j < i + 25:
                s += re.sub(r'"[^"]*"', '""', lines[j])
                if s.count("(") == s.count(")") and s.count("{") == s.count("}") and s.rstrip().endswith(";"):
                    out.append((i, j, "", "statement removed"))
                    break
                j += 1
    return lines, out

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

src = os.path.join(repo, crate, "src")
todo = []
for d, _, fs in os.walk(src):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if f.endswith(".rs") and "test" not in p[len(src):]:
            todo += [(p, m) for m in mutants(p)[1]]
random.Random(seed).shuffle(todo)
todo = todo[:limit]
print(len(todo), "mutants", flush=True)
env = dict(os.environ, REPO=repo, SIM_ANY="1", SIM_RUNS=runs, VERIF_SEED="1", VERIF_TIER="quick")
for n, (p, (i, j, new, what)) in enumerate(todo):
    orig = open(p).read()
    lines = orig.split("\n")
    old = "\n".join(lines[i:j + 1])
    open(p, "w").write("\n".join(lines[:i] + [new] + lines[j + 1:]))
    t, res = time.time(), "SURVIVED"
    try:
        for k in props:
            try:
                r = sh(["bash", verif + "/bin/check.sh", k, "quick"], env=env)
            except subprocess.TimeoutExpired:
                res = "TIMEOUT"
                break
            if r.returncode == 1:
                m = re.search(r"^FOUND (.*)$", r.stdout, re.M)
                res = "caught " + (m.group(1) if m else "?")
                break
            if r.returncode != 0:
                res = "nobuild" if "error" in r.stdout and "could not compile" in r.stdout else "NOANSWER " + r.stdout[-300:].replace("\n", " | ")
                break
    finally:
        open(p, "w").write(orig)
    print(f"{n} {os.path.relpath(p, repo)}:{i+1} [{what}] {' '.join(old.split())[:110]} :: {res} {time.time()-t:.0f}s", flush=True)
