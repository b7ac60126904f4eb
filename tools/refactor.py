#!/usr/bin/env python3
"""Applies behaviour-preserving edits of /repo and runs checks, which must stay quiet.
refactor.py GROUP... [-- Cxx...]; the edits are in tools/refactors/*.py. Run by hand, on a scratch copy that is
mounted over /repo for the checks."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/refscratch/repo"
P, R, J, T = "solana-program/src", "rust-client/src", "js-client/src", "ts-scripts"
G = {}
def group(name, checks, edits):
    G[name] = (checks.split(), edits)
for f in sorted(os.listdir(f"{V}/tools/refactors")):
    if f.endswith(".py"):
        exec(open(f"{V}/tools/refactors/{f}").read())
a = sys.argv[1:]
want = a[a.index("--") + 1:] if "--" in a else None
names = (a[:a.index("--")] if "--" in a else a) or list(G)
bad = 0
for n in names:
    checks, edits = G[n]
    if not os.path.exists(SCR):
        os.makedirs(os.path.dirname(SCR))
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    subprocess.check_call("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=SCR)
    try:
        for f, old, new in edits:
            p = f"{SCR}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (n, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run('. /opt/vp/env.sh; cargo check -q -p xorca-staking-program --offline && cargo check -q -p xorca --offline && cargo test -q "${SCOPE[@]}" --no-fail-fast 2>&1', shell=True, cwd=SCR, executable="/bin/bash", capture_output=True, text=True)
        if r.returncode:
            print(n, "does not build or pass the tests", (r.stdout + r.stderr)[-3000:]); bad += 1; continue
        for c in want or checks:
            t = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {SCR} /repo && exec {V}/bin/check {c}"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            quiet = r.returncode == 0 and "VIOLATION" not in r.stdout
            bad += not quiet
            print(n, c, "quiet" if quiet else f"ALARM rc={r.returncode}", f"{time.time() - t:.0f}s", "" if quiet else (r.stdout + r.stderr)[-700:], flush=True)
    finally:
        subprocess.check_call(["git", "-C", SCR, "checkout", "-q", "--", "."])
sys.exit(bool(bad))
