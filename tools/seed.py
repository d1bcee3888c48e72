#!/usr/bin/env python3
"""seed.py <spec.py>: makes /verif/seeded/<id>/ from a list of planted changes.
A spec defines S(id, prop, edits, demo, needs, breaks); edits are (file, old, new)."""
import json, os, subprocess, sys, shutil
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/work"
cp "$here/main.rs" "$tmp/src/main.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "seeded_demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
templito = { path = "/repo" }
anyhow = "1"
serde_json = "1"
toml = "0.5"
card_format = "0.2"
[profile.dev]
debug = false
T
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" --target-dir "$tmp/target" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
cd "$tmp/work" && HOME="$tmp/work" timeout 120 "$tmp/target/debug/seeded_demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use std::collections::HashMap;
use templito::prelude::*;
use templito::func_man::{default_func_man, BasicFuncs, FuncAdder, FuncManager};
use templito::temp_man::{BasicTemps, NoTemplates, TempManager};
use templito::tparam::TParam;
use templito::{TData, TreeTemplate, WithFuncs};
use std::str::FromStr;
/// rendered text, or the error
fn render(t: &str, params: &[&dyn TParam]) -> Result<String, String> {
    let t = TreeTemplate::from_str(t).map_err(|e| e.to_string())?;
    t.run(params, &mut BasicTemps::new(), &default_func_man()).map_err(|e| e.to_string())
}
fn gives(t: &str, params: &[&dyn TParam], want: &str) {
    let r = render(t, params);
    assert_eq!(r.as_deref(), Ok(want), "{}", t);
}
fn fails(t: &str, params: &[&dyn TParam]) {
    let r = render(t, params);
    assert!(r.is_err(), "{} gives {:?}", t, r);
}
'''
def S(id, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = "/repo/" + f
        t = open(p).read()
        if t.count(old) != 1:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
            raise SystemExit(f"{id}: {f}: {t.count(old)} times: {old!r}")
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(PRE + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    # the removed lines must be the original ones
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    own = []
    for f, old, new in edits:
        orig = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.split("\n")
        cur = set(orig)
        rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        own += [l for l in rem if l not in cur]
    print(id, prop, "ok" if not own else "NOT ORIGINAL: %r" % own, "" if any(l.startswith("-") and not l.startswith("---") for l in diff.split("\n")) else "NO LINE REMOVED")
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
