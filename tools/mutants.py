#!/usr/bin/env python3
"""Mechanical mutants of cesride: which survive its tests, and which of those no check sees.

mutants.py list [FILE...]             how many there are
mutants.py run OUT SLOTS [FILE...]    one JSON line per mutant (resumes), in scratch copies under /tmp/mut
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
M = "/tmp/mut"
QUICK = dict(re.findall(r'Prop \{ id: "(C\d\d)".*?quick: ([\d_]+)', open(f"{V}/sim/src/props/mod.rs").read()))
ALL = sorted(QUICK)
FIRST = {
 "bexter": "C03 C04 C05 C01", "cigar": "C05 C06 C03", "common": "C17 C02 C01 C07", "counter": "C03 C02 C16 C04 C01", "creder": "C17 C01",
 "dater": "C12 C05 C03 C01", "diger": "C07 C05 C03", "indexer": "C03 C04 C16 C02 C06 C01", "matter": "C03 C04 C02 C05 C01", "number": "C16 C03 C05 C09",
 "pather": "C19 C03 C05 C01", "prefixer": "C08 C05 C01", "sadder": "C17 C07 C02 C01", "saider": "C07 C17 C05 C01", "salter": "C10 C14 C11 C05", "seqner": "C16 C05 C03",
 "serder": "C17 C18 C01", "siger": "C05 C06 C03", "signer": "C06 C14 C11 C05 C10", "tholder": "C09 C17 C01", "util": "C03 C04 C16 C01", "verfer": "C06 C05 C08",
 "csprng": "C11", "hash": "C07", "salt": "C10 C14", "sign": "C06 C11 C14", "data": "C17 C07 C01 C19",
}
def mask(l):
    """String and character contents blanked out, comments cut."""
    out, i, q = [], 0, None
    while i < len(l):
        c = l[i]
        if q:
            if c == "\\": out.append("  "); i += 2; continue
            if c == q: q = None; out.append(c)
            else: out.append("\x00")
        elif c == '"': q = '"'; out.append(c)
        elif c == "'" and re.match(r"'(\\.|[^\\])'", l[i:]):
            m = re.match(r"'(\\.|[^\\])'", l[i:]).group(0); out.append("\x00" * len(m)); i += len(m); continue
        elif l.startswith("//", i): break
        else: out.append(c)
        i += 1
    return "".join(out)
def mutate(l):
    m = mask(l)
    s = m.strip()
    if not s or s.startswith(("#", "use ", "pub use", "mod ", "pub mod", "pub fn", "fn ", "impl", "pub trait", "pub(crate) fn", "where", "type ")): return
    def sub(pat, f):
        for k in re.finditer(pat, m):
            r = f(k)
            if r is None: continue
            yield l[:k.start()] + r + l[k.end():]
    for a, b in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" - ", " + "), (" + ", " - "),
                 (" * ", " / "), (" / ", " * "), (" % ", " / "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" += ", " -= "), (" -= ", " += "), ("..=", ".."),
                 (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), (".min(", ".max("), (".max(", ".min(")]:
        yield from sub(re.escape(a), lambda k: b)
    yield from sub(r" \|\| (?!\{)", lambda k: " && " if "(||" not in m else None)
    yield from sub(r"\btrue\b", lambda k: "false")
    yield from sub(r"\bfalse\b", lambda k: "true")
    yield from sub(r"(?<![\w.\"])\d+(?![\w.]*\")(?=\b)", lambda k: str(int(k.group()) + 1))
    yield from sub(r"(?<![\w.\"])[1-9]\d*(?![\w.]*\")(?=\b)", lambda k: str(int(k.group()) - 1))
    k = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*) \{$", l)
    if k and "let " not in k.group(2):
        yield f"{k.group(1)}false && ({k.group(2)}) {{"
        yield f"{k.group(1)}true || ({k.group(2)}) {{"
    yield from sub(r"(?<=[(\s&])!(?=[\w(])", lambda k: "")
    if re.match(r"^\s*(?!let |return|const |static |\}|\)|pub |Ok|Err|break|continue)[\w.:&(\[].*;$", l) and not re.search(r"[=] *$", l):
        yield re.match(r"\s*", l).group() + ";"
    if re.match(r"^\s*(continue|break);$", l): yield ";"
def head(f): return subprocess.run(["git", "-C", R, "show", f"HEAD:{f}"], capture_output=True, text=True).stdout
def mutants(files):
    out = []
    for f in subprocess.run("git ls-files src", shell=True, cwd=R, capture_output=True, text=True).stdout.split():
        if files and not any(x in f for x in files): continue
        if f.endswith(("error.rs", "lib.rs", "mod.rs")) and "/matter/" not in f and "/indexer/" not in f and "/counter/" not in f: continue
        for n, l in enumerate(head(f).split("\n"), 1):
            if "#[cfg(test)]" in l: break
            for new in dict.fromkeys(mutate(l)):
                if new != l: out.append((f, n, l, new))
    return out
def sh(cmd, cwd, env=None, t=600):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})}, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")
def slot(k):
    d = f"{M}/s{k}"
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f"git -C {R} archive HEAD | tar -x -C {d} --one-top-level=repo; cp {R}/Cargo.lock {d}/repo/; cp -a {V}/sim {d}/sim; sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/sim/Cargo.toml; cp {V}/known-findings.txt {d}/", "/")
        if k:
            sh(f"cp -a {M}/s0/tt {M}/s0/st {d}/", "/")
        r = sh(TEST.replace("timeout -k 1 100 ", ""), f"{d}/repo", tenv(d), 3000)
        assert r.returncode == 0, r.stderr[-2000:] + r.stdout[-2000:]
        r = sh("./build.sh", f"{d}/sim", {"SIM_TARGET": f"{d}/st"}, 3000)
        assert r.returncode == 0, r.stderr[-2000:]
    return d
def tenv(d):
    return {"CARGO_TARGET_DIR": f"{d}/tt", "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": "--cap-lints allow", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "1", "RUSTC_WRAPPER": ""}
TEST = "timeout -k 1 100 cargo test --lib --offline -q --config 'profile.dev.package.\"*\".opt-level=2' -- --test-threads 2"
def work(k, q, out, lock):
    d = slot(k)
    te = tenv(d)
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{f}"
        orig = head(f)
        ls = orig.split("\n"); assert ls[n - 1] == old; ls[n - 1] = new
        open(p, "w").write("\n".join(ls))
        rec = {"file": f, "line": n, "old": old, "new": new}
        try:
            r = sh(TEST, f"{d}/repo", te, 120)
            t = r.stdout + r.stderr
            if "could not compile" in t: rec["status"] = "nobuild"
            elif r.returncode: rec["status"] = "killed"
            else:
                rec["status"] = "missed"; rec["tried"] = []
                b = sh("./build.sh", f"{d}/sim", {"SIM_TARGET": f"{d}/st", "CARGO_BUILD_JOBS": "2"})
                if b.returncode: rec["status"] = "simbuild"; rec["err"] = b.stderr[-300:]
                else:
                    stem = os.path.basename(f)[:-3]
                    if stem in ("mod", "tables"): stem = f.split("/")[-2]
                    first = FIRST.get(stem, "").split()
                    for pr in first + [x for x in ALL if x not in first and x not in ("C10", "C11", "C12", "C13", "C14", "C18")]:
                        runs = max(200, int(QUICK[pr].replace("_", "")) // int(os.environ.get("MUT_DIV", "8")))
                        e = {"SIM_HOME": d, "SIM_WORKERS": "1", "SIM_WALL": "40", "SIM_SHRINK": "0", "VERIF_SEED": "1"}
                        c = sh(f"{d}/st/release/sim check --property {pr} --tier quick --runs {runs}", d, e, 200)
                        rec["tried"].append(pr)
                        if c.returncode == 1: rec["status"] = "caught"; rec["by"] = pr; break
                        if c.returncode != 0: rec["status"] = "ERROR"; rec["by"] = pr; rec["err"] = (c.stdout + c.stderr)[-300:]; break
        finally:
            open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(rec) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants(sys.argv[2:])
        by = {}
        for m in ms: by[m[0]] = by.get(m[0], 0) + 1
        for f, n in by.items(): print(n, f)
        print(len(ms))
    else:
        out, n, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
        ms = mutants(files)
        random.Random(7).shuffle(ms)
        done = set()
        if os.path.exists(out):
            for l in open(out):
                j = json.loads(l); done.add((j["file"], j["line"], j["old"], j["new"]))
        q = queue.Queue()
        for m in ms:
            if m not in done: q.put(m)
        print(q.qsize(), "to go", flush=True)
        for k in range(n): slot(k)
        lock = threading.Lock()
        ts = [threading.Thread(target=work, args=(k, q, out, lock)) for k in range(n)]
        for t in ts: t.start()
        for t in ts: t.join()
