#!/usr/bin/env python3
"""Makes and confirms planted bugs. tools/seeds/*.py describe them; for each one a patch is made in a
scratch copy of /repo, built, tested with the repository's stable tests, and its demo run with and without."""
import json, os, shutil, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch/repo"
BUGS = {}
P, R, J, T = "solana-program/src", "rust-client/src", "js-client/src", "ts-scripts"
def bug(id, prop, edits, main, needs, breaks, kind="rust", extra=None):
    BUGS[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, kind=kind, extra=extra or {})
PRE = '''mod minisvm;
use minisvm::*;
use xorca_staking_program::entrypoint::process_instruction as entry;
#[allow(unused)]
fn check(c: bool, m: &str) {
    if !c {
        eprintln!("BROKEN: {m}");
        std::process::exit(1);
    }
}
fn main() {
    #[allow(unused)]
    let (auth, a, b) = (user(200), user(1), user(2));
'''
for f in sorted(os.listdir(f"{V}/tools/seeds")):
    if f.endswith(".py"):
        exec(open(f"{V}/tools/seeds/{f}").read())
def sh(cmd, cwd=SCR, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def scratch():
    if not os.path.exists(SCR):
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    base = sh("git diff HEAD --stat").stdout
    assert not base, base
def tests():
    r = sh(". /opt/vp/env.sh; cargo check -q -p xorca-staking-program --offline && cargo check -q -p xorca --offline && cargo test -q \"${SCOPE[@]}\" --no-fail-fast 2>&1", executable="/bin/bash")
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
def make(id):
    b = BUGS[id]
    d = f"{V}/seeded/{id}"
    scratch()
    for f, old, new in b["edits"]:
        p = f"{SCR}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    ok, out = tests()
    if not ok:
        print(id, "TESTS FAIL", out); return False
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    if b["kind"] == "rust":
        shutil.copy(f"{V}/tools/demo.sh.tmpl", f"{d}/demo.sh")
        shutil.copy(f"{V}/harness/mini/src/minisvm.rs", f"{d}/minisvm.rs")
        open(f"{d}/main.rs", "w").write(PRE + textwrap.indent(textwrap.dedent(b["main"]), "    ") + "}\n")
    elif b["kind"] == "js":
        for f in ["tools/jsdemo/demo.sh", "tools/jsdemo/lib.cjs"] + [f"js/shims/{x}.cjs" for x in ("ed25519", "irys", "kit", "spl-token", "token", "web3")]:
            shutil.copy(f"{V}/{f}", f"{d}/")
        open(f"{d}/main.cjs", "w").write("'use strict';\nconst L = require('./lib.cjs');\nconst { check, user } = L;\n(async () => {\n" + textwrap.indent(textwrap.dedent(b["main"]).strip(), "  ") + "\n})().catch(L.fatal);\n")
    elif b["kind"] == "client":
        shutil.copy(f"{V}/tools/clientdemo.sh", f"{d}/demo.sh")
        open(f"{d}/main.rs", "w").write(textwrap.dedent(b["main"]))
    else:
        open(f"{d}/demo.sh", "w").write(b["main"])
    for n, s in b["extra"].items():
        open(f"{d}/{n}", "w").write(s)
    r1 = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    r0 = sh(f"bash {d}/demo.sh")
    good = r0.returncode == 0 and r1.returncode not in (0, 99)
    print(id, "OK" if good else "BAD", "unchanged:", r0.returncode, "patched:", r1.returncode, (r1.stdout + r1.stderr)[-300:].strip() if good else (r0.stdout + r0.stderr)[-1500:] + (r1.stdout + r1.stderr)[-1500:], flush=True)
    return good
def over(scr, check):
    """One check with a scratch copy mounted over /repo (for this process tree only): /repo itself stays as it is."""
    cmd = f"mount --bind {scr} /repo && exec bin/check {check}"
    return subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
def against(id, checks):
    """Run checks with the bug applied."""
    scratch()
    subprocess.check_call(["git", "apply", f"{V}/seeded/{id}/patch.diff"], cwd=SCR)
    res = []
    try:
        for c in checks:
            r = over(SCR, c)
            res.append((c, r.returncode, r.stdout.strip().splitlines()[0][:220] if r.stdout.strip() else r.stderr[-200:]))
    finally:
        sh("git checkout -q -- .")
    return res
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for i in ids or BUGS: make(i)
    elif cmd == "check":
        for i in ids or sorted(os.listdir(f"{V}/seeded")):
            p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
            for c, rc, m in against(i, [p]):
                print(i, c, "CAUGHT" if rc == 1 else f"MISSED rc={rc}", m, flush=True)
    elif cmd == "all":
        ids, cs = [x for x in ids if not x.startswith("C")], [x for x in ids if x.startswith("C")]
        for i in ids:
            print(i, [(c, rc) for c, rc, m in against(i, cs)], flush=True)
