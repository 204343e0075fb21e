#!/usr/bin/env python3
"""Makes and confirms planted bugs: seed.py [ids...]; writes seeded/<id>/ when confirmed in a scratch copy."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("bugs", os.path.join(V, "tools", "bugs.py"))
B = importlib.util.module_from_spec(spec); spec.loader.exec_module(B)
W = tempfile.mkdtemp(prefix="seed-", dir="/tmp")

MAIN = '''#![allow(dead_code, unused)]
@MODS@
use std::panic::catch_unwind;
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
fn b(n: usize, s: u8) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(s)).collect() }
fn show(f: fn() -> Vec<u8>) -> String { match catch_unwind(f) { Ok(v) => hex(&v), Err(_) => "panic".into() } }
@EXTRA@
fn main() {
    @PRE@
    std::panic::set_hook(Box::new(|_| {}));
    let cases: &[(fn() -> Vec<u8>, &str)] = &[
@CASES@
    ];
    let mut bad = 0;
    for (i, (f, want)) in cases.iter().enumerate() {
        let got = show(*f);
        if std::env::args().nth(1).is_some() { println!("{got}"); continue; }
        if got != *want { println!("case {i}: got {got}, expected {want}"); bad = 1; }
    }
    std::process::exit(bad);
}
'''
RUN = {"debug": 'cargo run --offline -q', "release": 'cargo run --offline -q --release', "both": 'cargo run --offline -q && cargo run --offline -q --release',
       "s390x": 'export MIRI_SYSROOT="$T/sysroot" MIRIFLAGS=-Zmiri-disable-isolation\ncargo +nightly miri setup --target s390x-unknown-linux-gnu >/dev/null 2>&1\ncargo +nightly miri run --offline -q --target s390x-unknown-linux-gnu',
       "i686": 'export MIRI_SYSROOT="$T/sysroot" MIRIFLAGS=-Zmiri-disable-isolation\ncargo +nightly miri setup --target i686-unknown-linux-gnu >/dev/null 2>&1\ncargo +nightly miri run --offline -q --target i686-unknown-linux-gnu'}
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
sed "s#@REPO@#$R#" "$D/demo.rs" > "$T/src/main.rs"
sed "s#@REPO@#$R#" "$D/demo.toml" > "$T/Cargo.toml"
cp "$D/demo.lock" "$T/Cargo.lock"
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target"
@RUN@
'''
TOML = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\nlyra2 = { path = "@REPO@" }\nsha3 = "0.10.8"\nblake-hash = "0.4.1"\ngroestl = "0.10.1"\nskein-hash = "0.3.1"\ndigest = "0.10.7"\n\n[workspace]\n'


def sh(c, cwd, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def main(ids):
    orig = W + "/orig"
    sh("git -C /repo worktree list >/dev/null; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (orig, orig, orig), "/")
    for bug in B.BUGS:
        if ids and bug["id"] not in ids:
            continue
        if not ids and os.path.exists(V + "/seeded/" + bug["id"]):
            continue
        d = W + "/" + bug["id"]
        shutil.copytree(orig, d)
        ok = True
        for f, a, z in bug["edits"]:
            s = open(d + "/" + f).read()
            if s.count(a) < 1:
                print(bug["id"], "EDIT NOT FOUND", f, a[:60]); ok = False; break
            s = s.replace(a, z, 1)
            open(d + "/" + f, "w").write(s)
        if not ok:
            continue
        env = dict(os.environ, CARGO_TARGET_DIR=W + "/tgt")
        t = sh("cargo test --offline -q", d, env)
        if t.returncode:
            print(bug["id"], "TESTS FAIL", t.stdout[-600:], t.stderr[-1500:]); continue
        out = V + "/seeded/" + bug["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        p = sh("diff -ru --label a/X --label b/X /dev/null /dev/null; git diff --no-index --no-prefix orig %s" % bug["id"], W).stdout
        p = re.sub(r"(?m)^diff --git .*$", lambda m: "diff --git a/%s b/%s" % ((m.group(0).split(" b/")[-1] if 0 else m.group(0).split()[-1].split("/", 1)[1],) * 2), p)
        p = re.sub(r"(?m)^--- orig/", "--- a/", p)
        p = re.sub(r"(?m)^\+\+\+ %s/" % bug["id"], "+++ b/", p)
        open(out + "/patch.diff", "w").write(p)
        mods = "".join('#[path = "@REPO@/src/%s"] mod %s;\n' % (x, y) for x, y in bug.get("mods", []))
        cs = bug["cases"]
        def main_rs(exp):
            return MAIN.replace("@MODS@", mods).replace("@PRE@", bug.get("pre", "")).replace("@EXTRA@", bug.get("extra", "")).replace("@CASES@", "\n".join('        (|| { %s }, "%s"),' % (c, e) for c, e in zip(cs, exp)))
        open(out + "/demo.toml", "w").write(TOML)
        lk = open(V + "/spec/Cargo.lock").read().replace('name = "spec"', 'name = "demo"')
        open(out + "/demo.lock", "w").write(lk)
        open(out + "/demo.sh", "w").write(DEMO.replace("@RUN@", RUN[bug.get("run", "debug")]))
        os.chmod(out + "/demo.sh", 0o755)
        if bug.get("expect"):
            exp = bug["expect"]
        else:
            open(out + "/demo.rs", "w").write(main_rs([""] * len(cs)))
            e = sh("sed 's/^\\(cargo run.*\\)$/cargo run --offline -q -- x/; s/^cargo +nightly.*$//; s/^export MIRI.*$/cargo run --offline -q -- x/' %s/demo.sh > %s/gold.sh; sed -i \"s#^D=.*#D=%s#\" %s/gold.sh; bash %s/gold.sh" % (out, W, out, W, W), orig)
            exp = e.stdout.split("\n")[:len(cs)]
            if len(exp) < len(cs) or not exp[0]:
                print(bug["id"], "GOLD", e.stdout, e.stderr[-800:])
        open(out + "/demo.rs", "w").write(main_rs(exp))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, orig)
        z = sh("bash %s/demo.sh" % out, d)
        ap = sh("git -C /repo apply --check %s/patch.diff" % out, "/")
        good = a.returncode == 0 and z.returncode != 0 and ap.returncode == 0
        print(bug["id"], "CONFIRMED" if good else "NOT CONFIRMED orig=%d bug=%d apply=%d" % (a.returncode, z.returncode, ap.returncode), z.stdout[:150].replace("\n", " "), "" if good else a.stdout[-300:] + a.stderr[-600:] + z.stderr[-300:] + ap.stderr)
        if not good:
            shutil.rmtree(out)
        shutil.rmtree(d, ignore_errors=True)


try:
    main(sys.argv[1:])
finally:
    shutil.rmtree(W, ignore_errors=True)
