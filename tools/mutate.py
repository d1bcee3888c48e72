#!/usr/bin/env python3
"""mutate.py <lab> <out.jsonl> [file-regex] [shard/of]: plants small mechanical changes one at a
time in a lab copy (tools/lab.sh), runs the checks that cover the file until one catches it, and
records which. What no check catches and the tests pass is for a person to look at."""
import json, os, re, subprocess, sys, time
LAB = sys.argv[1]; OUT = sys.argv[2]
FRE = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
SH, OF = map(int, (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
REPO = LAB + "/repo"; V = LAB + "/verif"
MAP = [("parse/pattern", "C10 C34"), ("parse/template", "C34 C35 C03 C12 C09 C01 C10 C13"), ("parse/expr", "C04 C05 C34 C01 C19 C14"), ("parse/mod", "C34 C03 C04 C05 C10"),
  ("expr.rs", "C05 C06 C11 C34"), ("scope.rs", "C09 C11 C13 C14 C15"), ("pattern.rs", "C10 C34"), ("template.rs", "C34 C35 C13 C11 C08 C07 C09 C10 C12 C03 C01 C26 C15 C36"),
  ("temp_man", "C31 C11 C13"), ("func_man", "C31 C25 C27"), ("tdata.rs", "C36 C17 C18 C04 C07 C20 C22 C14 C23 C26 C19"), ("tparam.rs", "C14 C18"),
  ("funcs/bools", "C17"), ("funcs/bytes", "C23"), ("funcs/exec", "C30"), ("funcs/folder", "C25 C26"), ("funcs/format", "C22 C23"), ("funcs/free_file", "C26 C27"),
  ("funcs/lists", "C19 C18"), ("funcs/maps", "C19"), ("funcs/math", "C16 C17 C18"), ("funcs/mod", "C31 C27 C25 C26 C30 C34 C02"), ("funcs/nums", "C16 C29"),
  ("funcs/path", "C24 C25 C20"), ("funcs/random", "C29"), ("funcs/strings", "C20 C21 C32 C33 C28"), ("funcs/svg", "C21"), ("funcs/table", "C28"), ("funcs/write", "C26 C25"), ("", "C34 C02")]
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" && ", " || "), (" || ", " && "),
  (" * ", " + "), (" += ", " -= "), ("true", "false"), ("false", "true"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("Some(true)", "Some(false)"), ("Greater", "Less"), ("Less", "Greater"),
  ("..=", ".."), (".min(", ".max("), (".max(", ".min("), ("if !", "if "), (".skip(1)", ".skip(0)"), ("plus(", "star("), ("star(", "plus("), ("maybe(", "("), ("wn__(", "("), ("wn_(", "("), ("ws_(", "("), (".plus()", ".star()"), (".star()", ".plus()"), ("peek(", "("),
  (".any(", ".all("), (".all(", ".any("), ("trim()", "trim_start()"), ("starts_with", "ends_with"), ("continue", "break"), ("[1..]", "[0..]"), ("Cow::Borrowed", "Cow::Borrowed"), (".rev()", ""), (".trim_start(", ".trim("),]
def mutants():
    files = subprocess.run(["git", "-C", REPO, "ls-files", "src"], capture_output=True, text=True).stdout.split()
    for f in files:
        if f.startswith("src/tests") or "pipeline" in f or f.endswith("tests.rs") or not f.endswith(".rs") or not FRE.search(f): continue
        lines = open(f"{REPO}/{f}").read().split("\n")
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("pub mod") or s.startswith("mod "): continue
            code = l
            seen = set()
            for a, b in SWAPS:
                i = code.find(a)
                while i >= 0:
                    new = code[:i] + b + code[i + len(a):]
                    if new != code and new not in seen:
                        seen.add(new); yield f, n, new, f"{a.strip()} -> {b.strip()}"
                    i = code.find(a, i + 1)
            for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"])", code):
                if "exact(" in code and False: continue
                k = int(m.group(1))
                for r in ([k + 1] if k == 0 else [k + 1, k - 1]):
                    new = code[:m.start()] + str(r) + code[m.end():]
                    if new not in seen: seen.add(new); yield f, n, new, f"{k} -> {r}"
            for m in [] if "funcs/mod" in f else re.finditer(r"'(\\?[^'])'", code):
                new = code[:m.start()] + ("'~'" if m.group(1) != "~" else "'^'") + code[m.end():]
                if new not in seen: seen.add(new); yield f, n, new, f"{m.group(0)} -> '~'"
            for m in [] if "funcs/mod" in f else re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
                t = m.group(1)
                if "e_str" in code or "Expected" in code or "panic" in code or "assert" in code: continue
                if re.match(r"^[\w ]{9,}", t) and " " in t: continue
                for nt in ([t[:-1]] if len(t) > 1 and t[-2] != "\\" else []) + ([t[1:]] if len(t) > 2 and t[0] != "\\" else []):
                    new = code[:m.start()] + '"' + nt + '"' + code[m.end():]
                    if new not in seen: seen.add(new); yield f, n, new, f"{t!r} -> {nt!r}"
            if s.endswith(";") and not re.match(r"(let|return|break|use|const|type|continue|pub|\}|parser|char_bool)", s) and not s.startswith("}") and s.count("(") == s.count(")"):
                yield f, n, re.match(r"\s*", l).group(0) + "();", "statement removed"
            if re.search(r"=>\s*.*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith("_"):
                yield f, n, re.match(r"\s*", l).group(0), "arm removed"
            if re.match(r"(else )?if (?!let).*\{$", s):
                yield f, n, re.sub(r"if (.*) \{$", r"if true || (\1) {", l), "if true"
                yield f, n, re.sub(r"if (.*) \{$", r"if false && (\1) {", l), "if false"
def sh(cmd, t, **k):
    try:
        p = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **k)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, ""
done = set()
if os.path.exists(OUT):
    for l in open(OUT): r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
ms = [m for i, m in enumerate(mutants()) if i % OF == SH]
print(len(ms), "mutants"); sys.stdout.flush()
for f, n, new, what in ms:
    p = f"{REPO}/{f}"
    src = open(p).read(); ls = src.split("\n"); old = ls[n]
    if (f, n + 1, new.strip()) in done: continue
    ls[n] = new
    open(p, "w").write("\n".join(ls))
    r = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), what=what)
    t0 = time.time()
    try:
        rc, o = sh(f"cd {V} && ./check.sh build", 300)
        if rc: r["result"] = "does not build"
        else:
            checks = next(c for k, c in MAP if k in f).split()
            if "funcs/" in f and "C02" not in checks: checks.append("C02")
            r["result"] = "SURVIVES"
            for scale in ("0.02", "0.5"):
                for c in checks:
                    rc, o = sh(f"ulimit -v 12000000; cd {V} && VH_NOSHRINK=1 VH_SCALE={scale} timeout -k 5 500 target/debug/vh check {c}", 600, env=env)
                    if rc == 1 and "VIOLATION" in o: r["result"] = "caught"; r["by"] = c; r["scale"] = scale; break
                    if rc: r["result"] = f"check {c} gives {rc}"; break
                if r["result"] != "SURVIVES": break
            if r["result"] == "SURVIVES":
                rc, o = sh(f"cd {REPO} && CARGO_TARGET_DIR={REPO}/target RUSTC_WRAPPER= timeout -k 5 200 cargo test --offline --workspace", 300)
                bad = re.findall(r"^test (\S+) .* FAILED", o, re.M)
                if rc: r["result"] = "tests fail"
    finally:
        open(p, "w").write(src)
    r["s"] = round(time.time() - t0, 1)
    open(OUT, "a").write(json.dumps(r) + "\n")
