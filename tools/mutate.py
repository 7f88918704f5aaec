#!/usr/bin/env python3
"""Self-test of the monitors: plants small mechanical changes in scratch copies of /repo, keeps those the
repository's own tests do not notice, and runs the monitors of a scratch copy of /verif on them.
usage: mutate.py WORKERS COUNT SEED OUT.jsonl [file-regex]     (nothing here is used by a check)"""
import json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time

SRC = os.environ.get("MUT_SRC", "/repo")  # a copy, when /repo is being worked on
REL = {  # checks first in line for a file
 "data.rs": "C23 C07", "salt.rs": "C18 C19", "csprng.rs": "C19", "sign.rs": "C09 C10 C19", "hash.rs": "C12",
 "error.rs": "", "diger.rs": "C12 C08", "siger.rs": "C03 C08", "number.rs": "C26 C08", "indexer": "C03 C05 C06 C02",
 "pather.rs": "C24", "serder.rs": "C20 C21", "sadder.rs": "C20 C22", "verfer.rs": "C10 C08", "util.rs": "C01 C03 C04 C05 C15",
 "salter.rs": "C18 C19 C29", "seqner.rs": "C26", "creder.rs": "C22", "bexter.rs": "C25", "prefixer.rs": "C15",
 "matter": "C01 C05 C06 C02", "saider.rs": "C13 C14", "dater.rs": "C27", "counter": "C04 C05 C02", "cigar.rs": "C08 C10",
 "common.rs": "C28 C13", "tholder.rs": "C16 C17", "signer.rs": "C09 C11 C29",
}
ALL = [f"C{i:02d}" for i in range(1, 30)]

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def code_lines(path):
    L = open(path).read().split("\n")
    n = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l or "macro_rules!" in l), len(L))
    return L, n

OPS = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" % ", " / "),
 (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bif (?!let)(.+) \{$", r"if !(\1) {"), (r"\bif (?!let)(.+) \{$", r"if false && (\1) {"), (r"\bif (?!let)(.+) \{$", r"if true || (\1) {"),
 (r"^(\s*)return err!\(.*\)\??;$", r"\1;"), (r"^(\s*)[a-z_]+(\.[a-z_]+)*\(.*\)\?;$", r"\1;"), (r"^(\s*)(?!let|return|use)[a-z_.]+(\.[a-z_]+)*\(.*\);$", r"\1;"),
 (r"starts_with", "ends_with"), (r"is_empty\(\)", "len() == 1"), (r"\.\.=", ".."), (r"\.\.([a-z0-9])", r"..=\1"),
 (r"to_be_bytes", "to_le_bytes"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
 (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"\.zeroize\(\)", ".clone()"), (r"\.to_lowercase\(\)", ".to_string()"),
  (r"Some\(([a-z_.&]+)\)", "None"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"(\s+)continue;", r"\1break;"), (r"(\s+)break;", r"\1continue;"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""),
 (r"unwrap_or\(([a-z_A-Z:]+)\)", r"unwrap_or_default()"),
]

def mutants(regex):
    out = []
    for d, _, fs in os.walk(os.path.join(SRC, "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if not f.endswith(".rs") or (regex and not re.search(regex, rel)):
                continue
            L, n = code_lines(p)
            for i in range(n):
                l = L[i]
                s = l.strip()
                if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "fn ", "pub fn", "impl", "where")):
                    continue
                seen = set()
                for pat, rep in OPS:
                    for m in re.finditer(pat, l):
                        try:
                            x = l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():]
                        except re.error:
                            continue
                        if x != l and x not in seen:
                            seen.add(x); out.append((rel, i, x))
                for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.\"])", l):
                    k = int(m.group(0))
                    for v in {k + 1, max(k - 1, 0), k * 2} - {k}:
                        x = l[:m.start()] + str(v) + l[m.end():]
                        if x not in seen:
                            seen.add(x); out.append((rel, i, x))
                if s.endswith(";") and not s.startswith(("let ", "pub ", "const ", "static ", "return", "type ")) and s.count("(") == s.count(")"):
                    x = l[:len(l) - len(l.lstrip())] + ";"
                    if x not in seen:
                        seen.add(x); out.append((rel, i, x))
    return out

ENV = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUST_BACKTRACE": "0"}

def worker(args):
    k, jobs, seed, out, lock = args
    w = f"/tmp/mut/w{k}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh(f"mkdir -p {w}/repo {w}/verif && cp -a {SRC}/src {SRC}/Cargo.toml {SRC}/Cargo.lock {w}/repo/ && cp -a /verif/harness /verif/known_findings.txt {w}/verif/ && sed -i 's#path = \"/repo\"#path = \"{w}/repo\"#' {w}/verif/harness/Cargo.toml")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
    tenv = dict(ENV, RUSTFLAGS="-Aunused_imports -Awarnings --cap-lints warn", CARGO_TARGET_DIR=f"{w}/t", CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS="2")
    henv = dict(ENV, RUSTFLAGS="-Aunused_imports --cap-lints warn", CARGO_TARGET_DIR=f"{w}/h", CARGO_INCREMENTAL="0", CARGO_BUILD_JOBS="2", CESR_VERIF=f"{w}/verif", CESR_THREADS="3", VERIF_SEED=str(seed), VERIF_TIER="quick", TMPDIR=w)
    for rel, i, new in jobs:
        p = f"{w}/repo/{rel}"
        orig = open(os.path.join(SRC, rel)).read()
        L = orig.split("\n"); old = L[i]; L[i] = new
        open(p, "w").write("\n".join(L))
        r = {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = sh("cargo test --no-run --offline -q", f"{w}/repo", tenv, 300)
        if rc:
            r["res"] = "nobuild"
        else:
            rc, o = sh("cargo test --offline -q -- --test-threads 3", f"{w}/repo", tenv, 90)
            if rc:
                r["res"] = "tests"
            else:
                rc, o = sh("cargo build --release --offline -q", f"{w}/verif/harness", henv, 600)
                if rc:
                    r["res"] = "harness-nobuild"; r["out"] = o[-500:]
                else:
                    key = next((v for kk, v in REL.items() if kk in rel), "").split()
                    order = key + [c for c in ALL if c not in key]
                    r["res"] = "survived"; r["odd"] = []
                    for c in order:
                        rc, o = sh(f"{w}/h/release/cesr-monitor {c}", w, henv, 400)
                        if rc == 1 and "VIOLATION property" in o:
                            r["res"] = "caught"; r["by"] = c
                            r["sig"] = [x.strip()[:120] for x in o.split("\n") if x.startswith("  ") and "x) at" in x][:2]
                            break
                        if rc != 0:
                            r["odd"].append((c, rc, o[-300:]))
        open(p, "w").write(orig)
        if r["res"] not in ("nobuild", "tests"):
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
        else:
            with lock:
                open(out + ".dead", "a").write(json.dumps(r) + "\n")

def main():
    n, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    ms = mutants(sys.argv[5] if len(sys.argv) > 5 else "")
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants, taking", count, flush=True)
    ms = ms[:count]
    mgr = mp.Manager(); lock = mgr.Lock()
    ps = [mp.Process(target=worker, args=((k, ms[k::n], seed, out, lock),)) for k in range(n)]
    [p.start() for p in ps]; [p.join() for p in ps]
    shutil.rmtree("/tmp/mut", ignore_errors=True)

main()
