#!/usr/bin/env python3
"""C22: do the definitions the generator writes behave like the checked-in ones?  c22.py quick|thorough

Works in a scratch copy of /repo: builds it with from-spec, runs the generator under a controlled source of
randomness until it has written its items in every order it can, compiles the harness against the regenerated
tree, records what every execution of the C22 units shows there, and lets the harness that is built against /repo
run the same executions and compare. Two outputs that are the same items in another order are the same definitions."""
import glob, json, math, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = sys.argv[1] if len(sys.argv) > 1 else "quick"
T0 = time.time()
REPO = os.environ.get("MC_REPO", "/repo")


def items(text):
    """Top-level items of a Rust file, white space normalised."""
    out, cur, depth, i, n = [], [], 0, 0, len(text)
    while i < n:
        ch = text[i]
        if text.startswith("//", i):
            i = text.find("\n", i) if "\n" in text[i:] else n
            continue
        if text.startswith("/*", i):
            i = text.find("*/", i) + 2
            continue
        m = re.compile(r'b?"(?:[^"\\]|\\.)*"|b?\'(?:[^\'\\]|\\.[^\']*)\'|[A-Za-z0-9_]+').match(text, i)
        tok = m.group(0) if m else ch
        i += len(tok)
        if tok.isspace():
            continue
        cur.append(tok)
        if tok in "([{" and len(tok) == 1:
            depth += 1
        elif tok in ")]}" and len(tok) == 1:
            depth -= 1
            if depth == 0 and tok == "}" and cur[0] != "use":
                out.append(" ".join(cur))
                cur = []
        elif tok == ";" and depth == 0:
            out.append(" ".join(cur))
            cur = []
    if cur:
        out.append(" ".join(cur))
    return out


def evidence(states, transitions, traces, note, violations, samples):
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump({"property": "C22", "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
               "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces, "exhaustive": False,
                            "samples": samples, "note": note},
               "assumptions": ["two files with the same items in another order are the same definitions"],
               "wall_s": round(time.time() - T0, 3), "violations": violations}, open(f"{ROOT}/evidence/C22.json", "w"), indent=1)


def violation(what, detail):
    os.makedirs(f"{ROOT}/replay", exist_ok=True)
    p = f"{ROOT}/replay/C22.json"
    json.dump({"property": "C22", "tier": TIER, "unit": "regeneration", "detail": what, "steps": detail[-6000:].splitlines(), "rerun": "./check.sh C22"},
              open(p, "w"), indent=1)
    evidence(0, 0, 0, what, 1, [what])
    print("  " + what)
    print("\n".join("    " + x for x in detail.splitlines()[-12:]))
    print(f"VIOLATION property=C22 replay={p}")
    sys.exit(1)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main(d):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "LD_PRELOAD"):
        env.pop(k, None)
    tree = f"{d}/repo"
    shutil.copytree(REPO, tree, ignore=lambda p, ns: [n for n in ns if p == REPO and n in ("target", ".git")])
    shutil.copy(f"{ROOT}/gen/Cargo.lock", f"{tree}/Cargo.lock")
    # the generator, built and run as a maintainer would
    genv = dict(env, CARGO_TARGET_DIR=f"{d}/target-gen")
    r = run(["cargo", "build", "--offline", "--features", "from-spec"], cwd=tree, env=genv)
    if r.returncode:
        # is it the generator? the plain build of the same tree was made before this check started
        errs = [l for l in r.stdout.splitlines() if l.startswith("error") or "panicked" in l or " --> " in l]
        if re.search(r"no matching package|failed to select a version|No space left|failed to get|could not find `?rust", r.stdout):
            print(r.stdout[-3000:], file=sys.stderr)
            sys.exit(2)
        violation("building with from-spec fails, or the regenerated definitions do not compile", "\n".join(errs) or r.stdout)
    bins = glob.glob(f"{d}/target-gen/debug/build/amqp-codec-*/build-script-build")
    if len(bins) != 1:
        print("no generator", bins, file=sys.stderr)
        sys.exit(2)
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-o", f"{d}/seeded.so", f"{ROOT}/gen/seeded_random.c"])
    if r.returncode:
        print(r.stdout, file=sys.stderr)
        sys.exit(2)
    # formatting does not matter here, and takes most of the time
    os.mkdir(f"{d}/bin")
    with open(f"{d}/bin/rustfmt", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(f"{d}/bin/rustfmt", 0o755)

    def once(seed):
        o = f"{d}/out{seed}"
        shutil.copytree(f"{tree}/src/protocol", f"{o}/src/protocol")
        e = dict(env, PATH=f"{d}/bin:" + env.get("PATH", ""), CARGO_MANIFEST_DIR=o, LD_PRELOAD=f"{d}/seeded.so", GEN_SEED=str(seed))
        r = run([bins[0]], cwd=o, env=e, timeout=120)
        text = open(f"{o}/src/protocol/definitions.rs").read() if r.returncode == 0 else None
        shutil.rmtree(o)
        return seed, r, text

    orders, classes, runs, moving = {}, {}, 0, []
    cap = 2000 if TIER == "quick" else 20000
    budget = 240 if TIER == "quick" else 1800
    t1 = time.time()
    with ThreadPoolExecutor(8) as ex:
        a, b = once(1), once(1)
        if a[2] != b[2]:
            print("the generator's randomness is not controlled", file=sys.stderr)
            sys.exit(2)
        need = None
        while runs < cap and time.time() - t1 < budget:
            for seed, r, text in ex.map(once, range(runs, runs + 32)):
                runs += 1
                if text is None:
                    violation(f"the generator fails with hash seed {seed}", r.stdout)
                it = items(text)
                key = tuple(sorted(it))
                classes.setdefault(key, (seed, text))
                # the order of the enums among themselves identifies the order of everything
                order = tuple(re.search(r"\b(enum|struct) (\w+)", x).group(2) for x in it if re.search(r"^(?:# \[.*\] )*pub (enum|struct) (\w+)", x))
                orders.setdefault(order, seed)
            pos = {}
            for o in orders:
                for i, x in enumerate(o):
                    pos.setdefault(x, set()).add(i)
            moving = sorted(x for x in pos if len(pos[x]) > 1)
            need = math.factorial(len(moving)) if moving else 1
            if len(orders) >= need and (moving or runs >= 64):
                break
    full = need is not None and len(orders) >= need
    note = (f"the generator was run under {runs} hash seeds and wrote its items in {len(orders)} of {need} orders "
            f"(items that move: {', '.join(moving)}); {len(classes)} distinct set(s) of items"
            + ("" if full else "; the time limit was reached before every order was seen"))
    print("  " + note)
    # the harness against the regenerated tree, once for every distinct set of items
    shutil.copytree(f"{ROOT}/mc/src", f"{d}/mc/src")
    shutil.copy(f"{ROOT}/mc/Cargo.lock", f"{d}/mc/Cargo.lock")
    toml = open(f"{ROOT}/mc/Cargo.toml").read()
    assert '"/repo"' in toml
    with open(f"{d}/mc/Cargo.toml", "w") as f:
        f.write(toml.replace('"/repo"', f'"{tree}"'))
    # both sides walk the same alphabets: the values named in either
    for k, (seed, text) in enumerate(classes.values()):
        os.makedirs(f"{d}/defs{k}")
        with open(f"{d}/defs{k}/definitions.rs", "w") as f:
            f.write(text)
    r = subprocess.run([f"{ROOT}/mc/target/release/mc", "dict", f"{REPO}/src"] + [f"{d}/defs{k}" for k in range(len(classes))], stdout=subprocess.PIPE)
    if r.returncode:
        sys.exit(2)
    with open(f"{d}/dict", "wb") as f:
        f.write(r.stdout)
    env["MC_DICT"] = f"{d}/dict"
    code = 0
    for k, (seed, text) in enumerate(classes.values()):
        with open(f"{tree}/src/protocol/definitions.rs", "w") as f:
            f.write(text)
        r = run(["cargo", "build", "--release", "--offline"], cwd=f"{d}/mc", env=dict(env, CARGO_TARGET_DIR=f"{d}/target-mc"))
        if r.returncode:
            if re.search(r"no matching package|failed to select a version|No space left|failed to get", r.stdout):
                print(r.stdout[-3000:], file=sys.stderr)
                sys.exit(2)
            errs = [l for l in r.stdout.splitlines() if l.startswith("error") or " --> " in l]
            violation(f"with the definitions regenerated under hash seed {seed}, code that uses the checked-in ones does not compile", "\n".join(errs) or r.stdout)
        gen = f"{d}/mc-gen{k}"
        shutil.copy(f"{d}/target-mc/release/mc", gen)
        e = dict(env, MC_VERIF=d, VERIF_TIER=TIER)
        r = run([gen, "observe", "C22", f"{d}/obs{k}", "--tier", TIER], env=e)
        if r.returncode < 0:
            violation(f"the regenerated definitions crash the harness (signal {-r.returncode})", r.stdout)
        if r.returncode:
            print(r.stdout, file=sys.stderr)
            sys.exit(2)
        print(f"  {r.stdout.strip()} of the definitions written under hash seed {seed}")
        e = dict(env, MC_DICT=f"{d}/dict", MC_OBS=f"{d}/obs{k}", MC_GEN=gen, MC_NOTE=note, VERIF_TIER=TIER)
        r = subprocess.run([f"{ROOT}/mc/target/release/mc", "check", "C22", "--tier", TIER], env=e)
        code = r.returncode
        if code:
            break
    return code


d = tempfile.mkdtemp(prefix="c22-", dir="/tmp")
try:
    code = main(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(code)
