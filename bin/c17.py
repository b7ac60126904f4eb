#!/usr/bin/env python3
"""C17: the program's real code under AddressSanitizer (overflow checks and debug
assertions on) and under Miri. Drives the child processes and judges their reports."""
import collections, glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = f"{V}/target"
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
PROP = "C17"
HOST = "x86_64-unknown-linux-gnu"
PATCHED = {"pinocchio": "0.9.1", "pinocchio-log": "0.5.0", "pinocchio-pubkey": "0.3.0"}


def forget(root):
    """The crate of /repo is always recompiled (file times of a copy say nothing)."""
    for d in glob.glob(f"{root}/**/.fingerprint/xorca-staking-program-*", recursive=True):
        shutil.rmtree(d)


def asan_env():
    e = dict(os.environ, CARGO_TARGET_DIR=f"{T}/asan", RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zsanitizer=address")
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:strict_memcmp=0:exitcode=18:symbolize=0"
    return e


def miri_env(tree=False):
    e = dict(os.environ, CARGO_TARGET_DIR=f"{T}/miri", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cfg xorca_verif -Awarnings")
    e.pop("RUSTC_WRAPPER", None)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance" + (" -Zmiri-tree-borrows" if tree else "")
    return e


def patched_sources():
    """Copies of pinocchio whose on-chain code paths are compiled (cargo miri owns RUSTC_WRAPPER)."""
    out = f"{T}/miri-src"
    if os.path.exists(f"{out}/ok"):
        return
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for name, ver in PATCHED.items():
        src = glob.glob(f"{home}/registry/src/*/{name}-{ver}")[0]
        dst = f"{out}/{name}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        for f in glob.glob(f"{dst}/**/*.rs", recursive=True):
            s = open(f).read()
            if 'target_os = "solana"' in s:
                os.chmod(f, 0o644)
                open(f, "w").write(s.replace('target_os = "solana"', "not(any())"))
    open(f"{out}/ok", "w").write("")


def build():
    os.makedirs(T, exist_ok=True)
    patched_sources()
    forget(f"{T}/asan")
    forget(f"{T}/miri")
    jobs = [
        (["cargo", "build", "-q", "--offline", "--target", HOST], f"{V}/harness/mini", asan_env(), "asan"),
        # runs no case: builds only
        (["cargo", "miri", "run", "-q", "--", "1", "0", "0"], f"{V}/harness/miri", miri_env(), "miri"),
    ]
    ps = []
    for cmd, cwd, env, name in jobs:
        log = open(f"{T}/build-{name}.log", "w")
        ps.append((name, subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=log)))
    ok = True
    for name, p in ps:
        if p.wait() != 0:
            ok = False
            sys.stderr.write(f"build failed (no verdict): {name}\n" + open(f"{T}/build-{name}.log").read()[-4000:])
    return ok


XM = f"{T}/asan/{HOST}/debug/xm"


def command(tool, first, n, *more, tree=False):
    args = [str(SEED), str(first), str(n), *more]
    if tool == "asan":
        return [XM] + args, f"{V}/harness/mini", asan_env()
    return ["cargo", "miri", "run", "-q", "--"] + args, f"{V}/harness/miri", miri_env(tree)


def run(tool, ranges, limit):
    """One process per range; returns (range, rc, stdout, stderr) of each."""
    ps, res = [], []
    for i, (first, n) in enumerate(ranges):
        cmd, cwd, env = command(tool, first, n)
        fo, fe = f"{T}/c17-{tool}-{i}.out", f"{T}/c17-{tool}-{i}.err"
        ps.append(((first, n), subprocess.Popen(cmd, cwd=cwd, env=env, stdout=open(fo, "w"), stderr=open(fe, "w")), fo, fe))
    end = time.time() + limit
    for r, p, fo, fe in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        res.append((r, p.returncode, open(fo).read(), open(fe, errors="replace").read()))
    return res


def last_case(err):
    m = re.findall(r"^case (\d+)$", err, re.M)
    return int(m[-1]) if m else None


def what(err):
    """The report of a dead child in one line, None if it tells nothing about the program."""
    for pat in (r"^FOUND (.*)$", r"ERROR: (AddressSanitizer: [^\n]*)", r"(SUMMARY: AddressSanitizer[^\n]*)",
                r"error: (Undefined Behavior: [^\n]*)", r"(unsafe precondition\(s\) violated[^\n]*)",
                r"(stack overflow[^\n]*|has overflowed its stack[^\n]*)", r"(memory allocation of \d+ bytes failed)",
                r"(thread caused non-unwinding panic[^\n]*)", r"error: (abnormal termination: [^\n]*)"):
        m = re.search(pat, err, re.M)
        if m:
            # addresses differ from run to run
            return re.sub(r"0x[0-9a-f]+", "0x…", m.group(1)).strip()
    return None


def replay(tool, case, tree=False):
    cmd, cwd, env = command(tool, case, 1, "verbose", tree=tree)
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=300)
    return p.returncode, p.stdout, p.stderr


def main():
    if "--build" in sys.argv:
        sys.exit(0 if build() else 1)
    if not build():
        sys.exit(4)
    built = time.time() - T0
    if "--case" in sys.argv:
        i = sys.argv.index("--case")
        tool, case = (sys.argv[i + 1].split(":") + ["0"])[:2]
        rc, o, e = replay(tool, int(case))
        sys.stdout.write(o + e)
        sys.exit(0 if rc == 0 else 1)
    per = {"asan": 250_000 if THOROUGH else 11_000, "miri": 250 if THOROUGH else 16}
    procs = 8
    count, distinct, done, found, notes = collections.Counter(), {}, collections.Counter(), [], []
    for tool, base, limit in (("asan", 0, 2400 if THOROUGH else 300), ("miri", 10_000_000, 2400 if THOROUGH else 400)):
        ranges = [(base + i * per[tool], per[tool]) for i in range(procs)]
        distinct[tool] = set()
        for (first, n), rc, out, err in run(tool, ranges, limit):
            for k, v in re.findall(r"^count (\d+) (.*)$", out, re.M):
                count[f"{tool}: {v}"] += int(k)
            distinct[tool].update(re.findall(r"^distinct ([0-9a-f]+)$", out, re.M))
            case = last_case(err)
            if rc == 0 and out.rstrip().endswith("done"):
                done[tool] += n
                continue
            w = what(err)
            if case is None or (w is None and rc in (-9, 137)):
                notes.append(f"{tool} from case {first}: no verdict (exit {rc}, last case {case})")
                continue
            if w is None:
                if "unsupported operation" in err:
                    notes.append(f"{tool} case {case}: not supported by Miri")
                    continue
                w = f"process ended with {rc}"
            # it must be reproducible on its own; aliasing reports must hold under both models
            rrc, o, e = replay(tool, case)
            if rrc == 0:
                notes.append(f"{tool} case {case}: {w}: not reproduced")
                continue
            if tool == "miri" and (rrc2 := replay(tool, case, tree=True)[0]) == 0:
                notes.append(f"miri case {case}: {w}: accepted under the tree-borrows model ({rrc2})")
                continue
            found.append(dict(tool=tool, case=case, what=what(e) or w, seed=SEED, steps=o.splitlines()[-12:], report=e[-3000:]))
    evaluations = sum(count.values())
    verdict_missing = [t for t in per if not found and done[t] < per[t] * procs // 2]
    samples = [dict(outcome=k, times=v) for k, v in count.most_common()]
    samples = samples[:6] + samples[len(samples) // 2 : len(samples) // 2 + 6]
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=sum(len(d) for d in distinct.values()),
            rule="One evaluation per instruction executed under a sanitizer: valid, mutated (accounts swapped, aliased, missing, stripped of roles, truncated or overwritten; data cut or altered) on random pools, clocks and amounts. Distinct by data, accounts, mutation and outcome.",
            samples=samples,
            cases=dict(done),
            distinct_by_tool={t: len(d) for t, d in distinct.items()},
            observed=dict(sorted(count.items())),
            notes=notes, build_s=round(built, 1)),
        assumptions=[
            "AddressSanitizer run: each account is its own exact-size heap block in the runtime's layout, real SPL Token code, real derivation; integer overflow checks and debug assertions (unsafe preconditions) on. Native 64-bit code, not the SBF build.",
            "Miri run: same streams with stand-ins for derivation, hashing and the token program; reads of uninitialised or freed memory, misalignment, invalid values and aliasing violations are reported. Aliasing reports count only if both of Rust's aliasing models agree.",
            "Two input accounts with one address share memory, as in the runtime.",
        ],
        wall_s=round(time.time() - T0, 1), violations=len(found))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/replays", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{PROP}.json", "w"), indent=1)
    print(f"{PROP}: {evaluations} instructions, {ev['coverage']['distinct_nontrivial']} distinct, cases {dict(done)}, {ev['wall_s']} s (build {built:.0f} s)")
    for n in notes:
        print("note:", n)
    if found:
        path = f"{V}/replays/{PROP}.json"
        json.dump(dict(property=PROP, how=f"VERIF_SEED={SEED} bin/check C17 --case {found[0]['tool']}:{found[0]['case']}", violations=found), open(path, "w"), indent=1)
        print(found[0]["what"])
        print("\n".join(found[0]["steps"]))
        print(f"VIOLATION property={PROP} replay=replays/{PROP}.json")
        sys.exit(1)
    if verdict_missing:
        print("no verdict:", verdict_missing)
        sys.exit(4)


main()
