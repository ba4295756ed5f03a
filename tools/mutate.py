#!/usr/bin/env python3
"""Mutation campaign (development aid, no check runs it).

mutate.py WORKER NWORKERS COUNT SEED OUT: makes random one-line mutants of /repo's sources in a
scratch copy, keeps those which build and pass the repository's tests, and runs the
relevant checks against them; what no check reports goes to OUT as SURVIVED.
"""
import os, random, re, shutil, subprocess, sys, hashlib
w, nw, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
only = sys.argv[6:] 
base = f"/tmp/mut{w}"
FILES = {
    "src/signal/mutable.rs": "c01 c02 c23 c21 c25 c26",
    "src/signal/channel.rs": "c03 c23 c26",
    "src/atomic.rs": "c03 c23 c26",
    "src/signal/broadcaster.rs": "c04 c23 c21 c26",
    "src/signal/signal.rs": "c05 c06 c07 c08 c09 c16 c21 c26",
    "src/signal/macros.rs": "c06 c21 c26",
    "src/internal.rs": "c06 c21 c26",
    "src/signal_vec.rs": "c12 c13 c14 c15 c17 c18 c21 c10 c11 c16 c09 c24 c25 c26",
    "src/signal_map.rs": "c19 c20 c21 c24 c09 c25 c26",
    "src/future.rs": "c22 c26",
}
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin")

FINE = ("c22", "c23", "c24")

def mutants(path, text):
    lines = text.split("\n")
    res = []
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if not c.strip() or "cfg(" in l or "#[" in l or "use " in l or "macro_rules" in l: continue
        if re.match(r"\s*(pub )?(fn|struct|impl|trait|enum|type|where|mod)\b", c): continue
        def add(new, what):
            if new != l: res.append((i, l, new, what))
        for a, b in [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" + 1", ""), (" - 1", ""),
                     (" + 1", " + 2"), (" += 1", " += 2"), ("+=", "-="), ("-=", "+="), ("true", "false"), ("false", "true"),
                     ("Poll::Ready(None)", "Poll::Pending"), ("Poll::Pending", "Poll::Ready(None)"), ("if !", "if "), (" + ", " - "), (" - ", " + "),
                     (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("new_index", "old_index"), ("old_index", "new_index"),
                     ("Some(", "None; //"), (".take()", ".as_mut()"), ("0..", "1.."), ("..]", "-1..]"), ("break", "continue"),
                     ("left", "right"), ("right", "left"), ("index", "index + 1"), ("len()", "len().saturating_sub(1)"), ("changed: true", "changed: false"),
                     ("loop {", "{"), ("return ", ""), ("VecDiff::Push { value", "VecDiff::InsertAt { index: 0, value"), (".insert(", ".insert(0 * "),
                     ("> 0", "> 1"), ("== 0", "<= 1"), ("!= 0", "> 1"), ("== 1", "<= 1"), (">= ", "> 1 + "), ("< ", "<= "), (".rev()", ""), ("None", "Some(Default::default())"),
                     (".drain(..)", ".drain(1..)"), ("continue;", "return Poll::Pending;"), ("continue;", "break;"),
                     (".iter()", ".iter().skip(1)"), (".iter()", ".iter().rev()"), (".into_iter()", ".into_iter().take(9)"), (".into_iter()", ".into_iter().rev()"),
                     (".iter_mut()", ".iter_mut().take(9)"), ("len", "(len as u8 as usize)"), ("index", "(index as u8 as usize)"), 
                     ("&self.", "&mut self."), ("usize", "u8"), (" && ", " || true && "), (".push(", ".insert(0, "), (".pop()", ".first().cloned()"),
                     ]:
            for m in re.finditer(re.escape(a), c):
                s, e = m.span()
                if re.match(r"\w", a[0]) and s > 0 and re.match(r"\w", c[s-1]): continue
                if re.match(r"\w", a[-1]) and e < len(c) and re.match(r"\w", c[e]): continue
                add(l[:s] + b + l[e:], f"{a} -> {b}")
        for m in re.finditer(r"(?<![<>=\-])([<>])(?![<>=])", c):
            if c[m.start()-1:m.start()] == " " and c[m.end():m.end()+1] == " ":
                add(l[:m.start()] + m.group(1) + "=" + l[m.end():], f"{m.group(1)} -> {m.group(1)}=")
        m = re.match(r"(\s*)(\} else )?if (.*) \{\s*$", c)
        if m and " let " not in " " + c:
            add(f"{m.group(1)}{m.group(2) or ''}if true || ({m.group(3)}) {{", "if true")
            add(f"{m.group(1)}{m.group(2) or ''}if false && ({m.group(3)}) {{", "if false")
        if re.match(r"\s*[a-z_*].*;\s*$", c) and not re.match(r"\s*(let|return|use|type|pub|fn|break|continue|mod)\b", c):
            add(re.match(r"\s*", l).group(0) + "{}", "statement removed")
        m = re.match(r"(\s*)(if|for|while) .*\{\s*$", c)
        if m:
            e = next((j for j in range(i + 1, min(i + 25, len(lines))) if lines[j] == m.group(1) + "}"), None)
            if e: res.append((i, l, "\n".join(["#[allow(unreachable_code)] if false {"] + lines[i:e + 1] + ["}"]), "block removed@%d" % e))
        if re.match(r"\s*[a-z_*].*\(.*;\s*$", c) and not re.match(r"\s*(let|return|use|type|pub|fn|break|continue|mod|drop)\b", c):
            res.append((i, l, l + "\n" + l, "statement doubled"))
        if i + 1 < len(lines) and re.match(r"\s*[a-z_*].*;\s*$", c) and re.match(r"\s*[a-z_*].*;\s*$", lines[i + 1].split("//")[0]) \
                and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()):
            res.append((i, l, lines[i + 1] + "\n" + l, "statements swapped"))
        if re.match(r"\s*(VecDiff|MapDiff|Some|None|Poll)\b.*=> \{\},?$", c):
            pass
    return res

REGION = [("ChainProj", "c14"), ("Chain<", "c14"), ("Flatten", "c14"), ("SortBy", "c13"), ("DelayRemove", "c18"), ("Enumerate", "c15"), ("MapSignal", "c17"),
    ("FilterSignalCloned", "c17"), ("MutableVec", "c11 c10"), ("MutableSignalVec", "c11"), ("ToSignal", "c16"), ("IsEmpty", "c16"), ("Len", "c16"), ("Sum", "c16"),
    ("Filter<", "c12"), ("FilterMap", "c12"), ("Map<", "c12"), ("VecDiff", "c10"), ("MutableBTreeMap", "c19 c20"), ("MapWatch", "c20"), ("MapValue", "c20"), ("KeysSignal", "c20"), ("EntriesSignal", "c20"),
    ("MapFuture", "c08"), ("Throttle", "c08"), ("Sample", "c08"), ("FromStream", "c08"), ("FromFuture", "c08"), ("SwitchSignalVec", "c07"), ("Switch", "c07"), ("Sender", "c03 c23"), ("Receiver", "c03 c23")]

def first(f, src, i):
    """The checks which are most likely to notice it: those of the enclosing impl."""
    for l in reversed(src[:i + 1]):
        m = re.match(r"\s*(?:impl|pub struct|struct|fn) ?(.*)", l)
        if m and l.lstrip().startswith("impl"):
            return [b for n, bs in REGION if n in m.group(1) for b in bs.split() if b in FILES[f].split()][:3]
    return []

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -99, "timeout"

os.makedirs(base, exist_ok=True)
repo, har = f"{base}/repo", f"{base}/harness"
if not os.path.exists(repo):
    shutil.copytree("/repo", repo, symlinks=True)
shutil.rmtree(har, ignore_errors=True)
shutil.copytree("/verif/harness", har)
t = open(f"{har}/Cargo.toml").read().replace('"/repo"', f'"{repo}"')
open(f"{har}/Cargo.toml", "w").write(t)
env2 = dict(ENV, RUSTFLAGS="--cfg futures_signals_verif --cap-lints=warn -A warnings", VERIF_ROOT=base, VERIF_SCALE=os.environ.get("MUT_SCALE", "0.3"), VERIF_SEED="1")
env1 = dict(ENV, RUSTFLAGS="-A mismatched_lifetime_syntaxes", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
os.makedirs(f"{base}/evidence", exist_ok=True); os.makedirs(f"{base}/replays", exist_ok=True)
shutil.copy("/verif/known_findings.txt", base)

allm = []
for f in FILES:
    if only and not any(o in f for o in only): continue
    text = open(f"/repo/{f}").read()
    allm += [(f,) + m for m in mutants(f, text)]
random.Random(seed).shuffle(allm)
allm = allm[:count]
def log(s):
    with open(out, "a") as o: o.write(s + "\n")
if w == 0: log(f"# {len(allm)} mutants, seed {seed}")
for n, (f, i, old, new, what) in enumerate(allm):
    if n % nw != w: continue
    src = open(f"/repo/{f}").read().split("\n")
    src[i] = new
    if what == "statements swapped": del src[i + 1]
    if "@" in what:
        del src[i + 1:int(what.split("@")[1]) + 1]
    with open(f"{repo}/{f}", "w") as o: o.write("\n".join(src))
    head = f"{f}:{i+1} [{what}] {old.strip()}  =>  {new.strip()}".replace("\n", " // ")
    try:
        rc, o = sh("cargo build --offline -q -j3", repo, 300, env1)
        if rc: log("NOBUILD " + head); continue
        rc, o = sh("cargo test --workspace --offline -q -j3 -- --test-threads 4", repo, 120, env1)
        if rc: log("TESTS " + head); continue
        # contents decide; a cargo mtime granularity issue can't arise since every mutant is a new write
        caught = None; odd = []
        for b in first(f, src, i) + [b for b in FILES[f].split() if b not in first(f, src, i)]:
            tgt = base + ("/target/fine" if b in FINE else "/target")
            rc, o = sh(f"cargo build --offline -q -j4 --target-dir {tgt} --bin {b}", har, 600, dict(env2, RUSTC_WRAPPER="/verif/tools/rustc-fine") if b in FINE else env2)
            if rc: odd.append("NOBUILD:" + b + " " + o[-200:]); break
            rc, o = sh(f"{tgt}/debug/{b}", base, 200, env2)
            if rc == 1 and "VIOLATION" in o: caught = b; break
            if rc != 0: odd.append(f"{b}:{rc}")
        if caught: log(f"CAUGHT {caught} " + head)
        else: log(f"SURVIVED {' '.join(odd)} " + head)
    finally:
        shutil.copy(f"/repo/{f}", f"{repo}/{f}")
log(f"# worker {w} done")
