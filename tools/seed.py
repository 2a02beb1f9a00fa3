#!/usr/bin/env python3
"""Plants bugs: seed.py make [ids...] writes /verif/seeded/<id>/ after confirming each in a scratch copy of /repo
(builds, passes the listed tests, its demonstration fails with it and passes without it).
seed.py catch [ids...] applies each to /repo, runs the check of its property (or CHECKS=C01,C02 ...), undoes it."""
import sys, os, subprocess, json, shutil, re, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SCRATCH = "/tmp/seedwork"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

PRELUDE = r'''#![allow(unused_imports, dead_code, unused_mut, deprecated)]
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpCodecError, AmqpFrame, AmqpParseError, Decode, Encode, InMessage, MessageBody, OutMessage, ProtocolIdCodec, ProtocolIdError, SaslFrame};
use bytes::{BufMut, Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

fn enc<T: Encode>(t: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(1 << 18);
    t.encode(&mut b);
    b.to_vec()
}
fn dec<T: Decode>(b: &[u8]) -> T {
    match T::decode(b) {
        Ok((r, v)) => {
            assert!(r.is_empty(), "bytes left");
            v
        }
        Err(e) => panic!("{:?}", e),
    }
}
fn frame(channel: u16, body: &[u8]) -> Vec<u8> {
    let n = (8 + body.len()) as u32;
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(&[2, 0]);
    v.extend_from_slice(&channel.to_be_bytes());
    v.extend_from_slice(body);
    v
}
'''
DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo: builds demo.rs against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
amqp-codec = { path = "$repo" }
bytes = "0.4"
chrono = "0.4"
hashbrown = "0.1.8"
ordered-float = "1.0"
string = "0.1.3"
tokio-io = "0.1"
tokio-codec = "0.1"
futures = "0.1"
uuid = { version = "0.7", features = ["v4"] }
[profile.dev]
debug = 0
[workspace]
EOF
cd "$d" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" CARGO_NET_OFFLINE=true
cargo build --offline --quiet >build.log 2>&1 || { tail -n 40 build.log; exit 3; }
ulimit -v 4000000
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''

# the demonstration runs against regenerated definitions
GEN_SH = DEMO_SH.replace("""mkdir "$d/src" &&""", """mkdir "$d/repo" && tar -C "$repo" -cf - --exclude=./target --exclude=./.git . | tar -C "$d/repo" -xf - || exit 3
(cd "$d/repo" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo build --offline --quiet --features from-spec) >"$d/gen.log" 2>&1 || { tail -n 40 "$d/gen.log"; exit 1; }
repo=$d/repo
mkdir "$d/src" &&""")

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    if env: e.update(env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def load():
    import seedlist
    return seedlist.BUGS

def scratch():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    sh(f"cp -a /repo {SCRATCH}/repo")
    sh("git checkout -q -- . && git clean -fdq -e target -e Cargo.lock", cwd=f"{SCRATCH}/repo")

def apply_edits(repo, bug):
    for f, old, new, *n in bug["edits"]:
        p = os.path.join(repo, f); s = open(p).read()
        c = s.count(old)
        k = n[0] if n else None
        if k is None:
            assert c == 1, f"{bug['id']}: {f}: {c} occurrences of {old!r}"
            s = s.replace(old, new)
        else:
            parts = s.split(old); assert k < c, (bug["id"], c)
            s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        open(p, "w").write(s)

def tests(repo):
    r = sh("cargo test --offline 2>&1", cwd=repo, env={"CARGO_TARGET_DIR": f"{SCRATCH}/t-test", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"})
    m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
    return r.returncode == 0 and m and sum(int(x[1]) for x in m) >= 76, r.stdout

def demo(repo, d):
    r = sh(f"bash {d}/demo.sh", cwd=repo, env={"DEMO_TARGET": f"{SCRATCH}/t-demo"})
    return r.returncode, r.stdout

def make(ids):
    scratch(); repo = f"{SCRATCH}/repo"
    for bug in load():
        if ids and bug["id"] not in ids: continue
        d = f"{ROOT}/seeded/{bug['id']}"
        if not ids and os.path.exists(f"{d}/patch.diff"): continue
        tmp = f"{SCRATCH}/d"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(f"{tmp}/demo.rs", "w").write(PRELUDE + "\n" + bug["demo"].strip() + "\n")
        open(f"{tmp}/demo.sh", "w").write(GEN_SH if bug.get("gen") else DEMO_SH); os.chmod(f"{tmp}/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        try:
            c, o = demo(repo, tmp)
            if c != 0: print(bug["id"], "DEMO FAILS WITHOUT IT", c, o[-1500:]); continue
            apply_edits(repo, bug)
            open(f"{tmp}/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
            ok, o = tests(repo)
            if not ok: print(bug["id"], "TESTS FAIL", "\n".join(l for l in o.splitlines() if "FAILED" in l or "error" in l)[:1500]); continue
            c, o = demo(repo, tmp)
            if c == 0 or c == 3: print(bug["id"], "DEMO DOES NOT SHOW IT", c, o[-1500:]); continue
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
            print(bug["id"], bug["property"], "ok:", o.strip().splitlines()[-1][:150] if o.strip() else f"exit {c}", flush=True)
        except AssertionError as e:
            print(bug["id"], "EDIT", e)
        finally:
            sh("git checkout -q -- .", cwd=repo)
    shutil.rmtree(SCRATCH, ignore_errors=True)

def catch(ids):
    every = os.environ.get("CHECKS")
    res = {}
    for n in sorted(os.listdir(f"{ROOT}/seeded")):
        if ids and n not in ids: continue
        d = f"{ROOT}/seeded/{n}"; meta = json.load(open(f"{d}/meta.json"))
        props = [meta["property"]] if not every else (every.split(",") if every != "all" else [f"C{i:02d}" for i in range(1, 25)])
        assert sh("git status --porcelain --untracked-files=no", cwd="/repo").stdout == ""
        a = sh(f"git apply {d}/patch.diff", cwd="/repo")
        if a.returncode: print(n, "does not apply", a.stdout); continue
        try:
            for p in props:
                t = time.time(); r = sh(f"./check.sh {p} quick", cwd=ROOT)
                res[(n, p)] = r.returncode
                line = next((l for l in r.stdout.splitlines() if l.startswith("  unit")), r.stdout.strip()[-200:])
                cf = f"{HERE}/catches.json"; cs = json.load(open(cf)) if os.path.exists(cf) else {}
                cs.setdefault(n, {})[p] = [r.returncode, line.strip().split(":")[0][5:] if line.startswith("  unit") else ""]
                json.dump(cs, open(cf, "w"), indent=0, sort_keys=True)
                print(f"{n:<34} {p} exit {r.returncode} {time.time()-t:5.1f}s {line[:170]}", flush=True)
        finally:
            sh("git checkout -q -- .", cwd="/repo")
    return res

if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2:])
    elif sys.argv[1] == "catch": catch(sys.argv[2:])
