#!/usr/bin/env python3
"""Writes and validates the planted bugs in /verif/seeded.

usage: gen_seeds.py [id...]    (all of tools/seeds/*.py when no id is given)

Every bug is a dict: id, property, file, old, new, nth (which occurrence, default 0 and unique),
cases: [(rust expression giving String, expected String)], needs, breaks, optional edits (list of
(file, old, new, nth)), serde (bool), pre (rust items).  A bug is kept only when the patched copy
builds, passes the stable tests, and the demo passes on the clean copy and fails on the patched one.
"""
import json, os, shutil, subprocess, sys, glob, re
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SC = "/tmp/seedrepo"
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = STABLE.get("stable") or STABLE.get("passed") or STABLE.get("tests")

PRELUDE = r'''
#![allow(unused_imports, dead_code)]
use pgdatetime::{Date, DateOrder, DateStyle, DateTime, DateTimeError, DateUnit, FieldType, Interval, IntervalStyle, Time, Timestamp};
use pgdatetime::{DateOrder::*, DateStyle::*};
use std::convert::TryFrom;

fn e<T, E>(r: Result<T, E>) -> Result<T, String> { r.map_err(|_| "Err".to_string()) }
fn o<F: FnOnce() -> Result<String, String> + std::panic::UnwindSafe>(f: F) -> String {
    match std::panic::catch_unwind(f) { Ok(Ok(s)) | Ok(Err(s)) => s, Err(_) => "panic".to_string() }
}
fn d(s: &str, k: DateOrder) -> String { let s = s.to_string(); o(move || e(e(Date::try_from_str(&s, k))?.format(ISO, YMD))) }
fn t(s: &str) -> String { tp(s, -1) }
fn tp(s: &str, p: i32) -> String { let s = s.to_string(); o(move || e(e(Time::try_from_str(&s, p, YMD))?.format(ISO))) }
fn ts(s: &str, k: DateOrder) -> String { let s = s.to_string(); o(move || e(e(Timestamp::try_from_str(&s, -1, k))?.format(ISO, YMD))) }
fn mts(s: &str) -> Timestamp { Timestamp::try_from_str(s, -1, YMD).unwrap() }
fn md(s: &str) -> Date { Date::try_from_str(s, YMD).unwrap() }
fn mt(s: &str) -> Time { Time::try_from_str(s, -1, YMD).unwrap() }
fn mi(s: &str) -> Interval { Interval::try_from_str(s, -1, IntervalStyle::Postgres).unwrap() }
fn i(s: &str, p: i32, st: IntervalStyle) -> String { let s = s.to_string(); o(move || fi(e(Interval::try_from_str(&s, p, st))?)) }
fn iv(s: &str) -> String { i(s, -1, IntervalStyle::Postgres) }
fn fi(v: Interval) -> Result<String, String> { e(v.format(IntervalStyle::Postgres)) }
fn ft(v: Timestamp) -> Result<String, String> { e(v.format(ISO, YMD)) }
fn fd(v: Date) -> Result<String, String> { e(v.format(ISO, YMD)) }
fn ri(m: i32, dd: i32, us: i64) -> Interval {
    // months, days and microseconds
    Interval::try_from_ymwd_hms(0, m, 0, dd, (us / 3_600_000_000) as i32, 0, 0.0).unwrap()
        .add_interval(Time::from(us % 3_600_000_000).into()).unwrap()
}
fn num(r: Result<f64, DateTimeError>) -> Result<String, String> { e(r).map(|v| v.to_string()) }
'''

DEMO = r'''#!/bin/bash
# Runs in the repository's root: exit 0 when the property holds on the cases of main.rs.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
pgdatetime = { path = "$repo"@FEAT@ }
@DEPS@T
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo run --offline --quiet
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def replace(path, old, new, nth):
    s = open(path).read()
    n = s.count(old)
    assert n > 0, f"not found: {old!r} in {path}"
    if nth is None:
        assert n == 1, f"{n} occurrences of {old!r}"
        nth = 0
    pos = -1
    for _ in range(nth + 1):
        pos = s.index(old, pos + 1)
    open(path, "w").write(s[:pos] + new + s[pos + len(old):])

def fresh():
    if not os.path.exists(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    sh(f"cd {SC} && git checkout -q -- . && rsync -a /repo/src/ {SC}/src/ 2>/dev/null || cp -a /repo/src/. {SC}/src/")

def build_demo(b, dst):
    os.makedirs(dst, exist_ok=True)
    body = "\n".join(f"    c({k[0]}, {json.dumps(k[1])}, {json.dumps(k[0])});" for k in b["cases"])
    open(dst + "/main.rs", "w").write(PRELUDE.lstrip() + b.get("pre", "") + f'''
fn main() {{
    std::panic::set_hook(Box::new(|_| {{}}));
    let mut bad = 0;
    let mut c = |got: String, want: &str, what: &str| {{
        if got != want {{
            println!("{{what}}\\n  gives {{got:?}}\\n  wants {{want:?}}");
            bad += 1;
        }}
    }};
{body}
    std::process::exit(if bad > 0 {{ 1 }} else {{ 0 }});
}}
''')
    s = b.get("serde")
    demo = DEMO.replace("@FEAT@", ', features = ["serde"]' if s else "").replace(
        "@DEPS@", 'serde = "1"\nserde_json = "1"\nbincode = "1"\n' if s else "")
    open(dst + "/demo.sh", "w").write(demo)
    os.chmod(dst + "/demo.sh", 0o755)

def main():
    bugs = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    want = sys.argv[1:]
    ok, bad = [], []
    env = dict(os.environ)
    for b in bugs:
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(f"{V}/seeded/{b['id']}/meta.json"):
            continue
        tmp = f"/tmp/seedwork/{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        build_demo(b, tmp)
        fresh()
        r0 = sh(f"cd {SC} && bash {tmp}/demo.sh", env=env)
        if r0.returncode != 0:
            bad.append(b["id"]); print(b["id"], "DEMO FAILS ON CLEAN:", r0.stdout[-600:]); continue
        try:
            for (f, old, new, nth) in b.get("edits") or [(b["file"], b["old"], b["new"], b.get("nth"))]:
                replace(f"{SC}/src/{f}", old, new, nth)
        except AssertionError as x:
            bad.append(b["id"]); print(b["id"], "EDIT:", x); continue
        diff = sh(f"cd {SC} && git diff").stdout
        # the changed lines have to be the original repository's
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = "\n".join(sh(f"cd {SC} && git show cf59ef7:src/{os.path.basename(x)}").stdout for x in glob.glob(SC + "/src/*.rs"))
        if removed and not all(l in base for l in removed):
            print(b["id"], "NOTE: changes lines that are not original")
        r = sh(f"cd {SC} && cargo test --all-features --no-fail-fast --offline -q 2>&1 | tail -60; cargo test --all-features --no-fail-fast --offline -- --test-threads 8 2>/dev/null | grep -E '^test '", env=env)
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M))
        if not passed:
            bad.append(b["id"]); print(b["id"], "NO BUILD", r.stdout[-1500:]); continue
        miss = [x for x in STABLE if x.split(".rs::", 1)[1] not in passed]
        r1 = sh(f"cd {SC} && bash {tmp}/demo.sh", env=env)
        if miss:
            bad.append(b["id"]); print(b["id"], "CAUGHT BY TESTS", miss[:3]); continue
        if r1.returncode == 0:
            bad.append(b["id"]); print(b["id"], "DEMO PASSES WITH PATCH"); continue
        dst = f"{V}/seeded/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        ok.append(b["id"]); print(b["id"], "ok")
    print(len(ok), "kept,", len(bad), "dropped:", bad)

main()
