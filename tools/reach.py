#!/usr/bin/env python3
"""Which blocks of the contracts do the simulated runs reach? Inserts a log line at the start of every block of
CRATE in a scratch copy of the repository, runs the named checks against it and prints the blocks never entered.
Usage: reach.py SCRATCH_REPO CRATE PROPS   (the scratch copy is restored afterwards; results of the checks are
not judged: the extra log lines cost gas)"""
import os, re, subprocess, sys
repo, crate, props = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = re.compile(r"^\s*(pub(\(crate\))? )?(fn .*\{$|\).*\{$|if .*\{$|\} else.*\{$|.*=> \{$|for .*\{$|while .*\{$|loop \{$)")
toml = open(f"{repo}/{crate}/Cargo.toml").read()
log = "near_sdk::env::log_str(%s);" if re.search(r'near-sdk = .*"=?4', toml) else "near_sdk::env::log(%s.as_bytes());"
plain = None if "near-sdk" in toml else 'near_sys_log(%s);'
ids = {}
try:
    for d, _, fs in os.walk(f"{repo}/{crate}/src"):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".rs") or "test" in f:
                continue
            lines, out, skip = open(p).read().split("\n"), [], False
            depth_fn = False
            for i, l in enumerate(lines):
                out.append(l)
                if re.match(r"\s*#\[cfg\((all\()?test|^#\[cfg\(not\(target_arch", l) or re.match(r"\s*mod tests\b", l):
                    skip = True
                if skip or not OPEN.match(l) or l.strip().startswith("//") or plain:
                    continue
                if re.search(r"match .*\{$", l) or "extern" in l or "const fn" in l or ("if let" in l and " = " not in l):
                    continue
                k = f"COV:{os.path.relpath(p, repo)}:{i+1}"
                ids[k] = l.strip()
                out[-1] = l + " " + log % f'"{k}"'
            open(p, "w").write("\n".join(out))
    cov = os.path.abspath(f"{repo}/cov.txt")
    if os.path.exists(cov):
        os.remove(cov)
    for p in props:
        env = dict(os.environ, REPO=repo, SIM_COV=cov, SIM_COUNT="1")
        r = subprocess.run(["bash", f"{V}/bin/check.sh", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p, "rc", r.returncode, r.stdout[-1500:] if r.returncode == 2 else r.stdout[-200:], flush=True)
    seen = set(open(cov).read().split("\n")) if os.path.exists(cov) else set()
    print(len(seen & set(ids)), "of", len(ids), "blocks entered; never:")
    for k, l in ids.items():
        if k not in seen:
            print("  ", k[4:], l)
finally:
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
