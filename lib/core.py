"""Shared machinery of the checks: building the harness, running TLC, replaying cases, comparing."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PALC_REPO", "/repo")
BUILD = os.environ.get("PALC_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla"
sys.path.insert(0, os.path.join(VERIF, "gen"))
from dsl import syms, unsyms, hexs, tb  # noqa: E402

class ToolError(Exception):
    pass

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

# ----------------------------------------------------------------------------- cargo
def cargo_env():
    e = dict(os.environ)
    for k in ("TRYBUILD", "UPDATE_EXPECT", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS",
              "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WORKSPACE_WRAPPER", "CARGO_MANIFEST_DIR"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.96.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    return e

def repo_hash():
    h = hashlib.sha256()
    for base in ("src", "derive", "Cargo.toml"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(r, f) for r, ds, fs in os.walk(p) if "target" not in r.split(os.sep) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

CARGO_TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2024"
description = "package description text"
publish = false
[dependencies]
palc = { path = "%s"%s }
[profile.dev]
debug = 0
[profile.release]
debug = 0
overflow-checks = false
[features]
default = [%s]
help = []
[workspace]
"""

def crate_dir(name, files, help_on=True, deps=""):
    """(Re)create a generated crate under build/; only rewrites files that changed."""
    d = os.path.join(BUILD, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    def put(p, s):
        p = os.path.join(d, p)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    put("Cargo.toml", CARGO_TOML % (name, REPO, "" if help_on else ", default-features = false", '"help"' if help_on else ""))
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        s = open(lock).read().replace('name = "harness"', 'name = "%s"' % name)
        put("Cargo.lock", s)
    for p, s in files.items():
        put(p, s)
    want = {os.path.join("src", f) for f in os.listdir(os.path.join(d, "src"))} - set(files)
    for p in want:
        q = os.path.join(d, p)
        if os.path.isfile(q): os.remove(q)
    return d

def cargo_build(d, release=False, timeout=600, message_format=None, args=()):
    h = repo_hash()
    hf = os.path.join(d, ".repo_hash")
    env = cargo_env()
    if os.path.exists(hf) and open(hf).read() != h:
        for p in ("palc", "palc-derive"):
            subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=d, env=env, capture_output=True)
    open(hf, "w").write(h)
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else []) + list(args)
    if message_format: cmd += ["--message-format", message_format]
    try:
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("cargo build timed out in %s" % d)
    return r

# ----------------------------------------------------------------------------- harness of definitions
def build_harness(name, defs, help_on=True, release=False, process=False):
    """Compile the definitions as Rust types; returns the executable, or a list of build errors."""
    main = "#![allow(warnings)]\nmod support;\nuse support::*;\n"
    disp = proc = rts = ""
    files = {"src/support.rs": open(os.path.join(VERIF, "harness", "support.rs")).read()}
    for i, d in enumerate(defs, 1):
        files["src/d%d.rs" % i] = d.rust("x").replace("use super::support::*;", "use crate::support::*;")[len("pub mod x {\n"):-2]
        main += "mod d%d;\n" % i
        disp += "        %d => run::<d%d::Root>(a),\n" % (i, i)
        if process: proc += "        %d => process::<d%d::Root>(),\n" % (i, i); rts += "        %d => routes_line::<d%d::Root>(a),\n" % (i, i)
    main += "fn dispatch(d: usize, a: Vec<OsString>) -> String {\n    match d {\n%s        _ => panic!(),\n    }\n}\n" % disp
    if process:
        main += "fn routes_of(d: usize, a: Vec<OsString>) -> String {\n    match d {\n%s        _ => panic!(),\n    }\n}\n" % rts
        main += "fn main() {\n    match std::env::var(\"PALC_D\").ok().and_then(|s| s.parse().ok()).unwrap_or(0usize) {\n        0 => main_loop(if std::env::var_os(\"PALC_ROUTES\").is_some() { routes_of } else { dispatch }),\n%s        _ => panic!(),\n    }\n}\n" % proc
    else:
        main += "fn main() { main_loop(dispatch) }\n"
    files["src/main.rs"] = main
    d = crate_dir(name, files, help_on)
    r = cargo_build(d, release)
    exe = os.path.join(d, "target", "release" if release else "debug", name)
    if r.returncode != 0:
        raise BuildFailed(name, r.stderr)
    return exe

class BuildFailed(Exception):
    """The definitions did not compile against the current tree."""
    def __init__(self, name, err):
        self.name, self.err = name, err
        super().__init__(name + ": " + err[:2000])

def line_of(d, argv):
    return "%d\t%s" % (d, ",".join(hexs(a) or "." for a in argv))

def _run_chunk(exe, lines, out, base, env=()):
    """Feed lines to the harness; a crash or hang is a result for the line that caused it."""
    n = 0
    while n < len(lines):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict({"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}, **dict(env)))
        def feed(proc=p, data=("\n".join(lines[n:]) + "\n").encode()):
            try:
                proc.stdin.write(data); proc.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True); t.start()
        err = []
        t2 = threading.Thread(target=lambda pr=p: err.append(pr.stderr.read()), daemon=True); t2.start()
        for raw in p.stdout:
            out[base + n] = raw.rstrip(b"\n").decode("ascii", "replace")
            n += 1
        rc = p.wait(); t2.join()
        if n < len(lines):
            msg = (err[0] if err else b"").decode("utf-8", "replace")
            out[base + n] = "CRASH\t%d\t%s" % (rc, msg.replace("\n", " | ").replace("\t", " ")[:400])
            n += 1

def replay(exe, cases, jobs=8, env=()):
    """cases: list of (def index, argv incl. argv0 as list of bytes) -> list of result lines"""
    return replay_lines(exe, [line_of(d, a) for d, a in cases], jobs, env)

def replay_lines(exe, lines, jobs=8, env=()):
    out = [None] * len(lines)
    step = max(1, (len(lines) + jobs - 1) // jobs)
    ts = []
    for b in range(0, len(lines), step):
        t = threading.Thread(target=_run_chunk, args=(exe, lines[b:b + step], out, b, env)); t.start(); ts.append(t)
    for t in ts: t.join()
    return out

def run_processes(exe, cases, jobs=8, timeout=20, broken=False):
    """cases: (def index, full argv incl. argv[0]) -> [(exit status, stdout, stderr)] of real processes calling parse();
    broken: nothing can be written to their stderr (a full device, or a pipe nobody reads)"""
    out = [None] * len(cases)
    def work(b):
        for i in range(b, len(cases), jobs):
            d, a = cases[i]
            err = subprocess.PIPE
            if broken and i % 2: err = os.open("/dev/full", os.O_WRONLY)
            elif broken: rd, err = os.pipe(); os.close(rd)
            try:
                r = subprocess.run(a, executable=exe, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err, timeout=timeout,
                                   env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "PALC_D": str(d)})
                out[i] = (r.returncode, r.stdout, r.stderr or b"")
            except subprocess.TimeoutExpired:
                out[i] = (-999, b"", b"HANG")
            finally:
                if broken: os.close(err)
    ts = [threading.Thread(target=work, args=(b,)) for b in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    return out

# ----------------------------------------------------------------------------- observed result -> outcome record
def uq(s):
    """undo the Debug formatting of a string ("..." without the quotes) -> bytes"""
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf-8"); i += 1; continue
        n = s[i + 1]
        if n == "x":
            out.append(int(s[i + 2:i + 4], 16)); i += 4
        elif n == "u":
            j = s.index("}", i)
            out += chr(int(s[i + 3:j], 16)).encode("utf-8"); i = j + 1
        else:
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0", "'": b"'", '"': b'"', "\\": b"\\"}[n]; i += 2
    return bytes(out)

QS = r'"((?:[^"\\]|\\.)*)"'
def DS(pre, post): return re.compile(pre + "(.*?)" + post, re.S)
PATS = [
    ("Unexpected", re.compile(r"unexpected argument " + QS + r"\Z", re.S), None, 1),
    ("UnknownSubcommand", re.compile(r"unrecognized subcommand " + QS + r"\Z", re.S), None, 1),
    ("Duplicated", re.compile(r"the argument '(.*)' cannot be used multiple times\Z", re.S), 1, None),
    ("UnexpectedInlineValue", re.compile(r"unexpected value " + QS + r" for '(.*)'\Z", re.S), 2, 1),
    ("MissingValue", re.compile(r"a value is required for '(.*)' but none was supplied\Z", re.S), 1, None),
    ("MissingEq", re.compile(r"equal sign is needed when assigning values for '(.*)'\Z", re.S), 1, None),
    ("Missing", re.compile(r"the argument '(.*)' is required but not provided\Z", re.S), 1, None),
    ("MissingSubcommand", re.compile(r"the subcommand is required but not provided\Z", re.S), None, None),
    ("Requires", re.compile(r"the argument '(.*)' is required because some dependency arguments are provided\Z", re.S), 1, None),
    ("Exclusive", re.compile(r"the argument '(.*)' cannot be used with one or more of the other specified arguments\Z", re.S), 1, None),
    ("Conflict", re.compile(r"the argument '(.*)' cannot be used with some other arguments\Z", re.S), 1, None),
    ("MissingArg0", re.compile(r"missing executable argument \(argv\[0\]\)\Z", re.S), None, None),
]
INV = re.compile(r"invalid value " + QS + r" for '", re.S)
EMPTY = dict(k="", e="", d=[], i=[], c=[], s="", v=[], p=[])

# the error's source: (its type, its text) -> the specification's name of the complaint
SOURCES = {("int", "cannot parse integer from empty string"): "int:empty", ("int", "invalid digit found in string"): "int:digit",
           ("int", "number too large to fit in target type"): "int:high", ("int", "number too small to fit in target type"): "int:low",
           ("int", "number would be zero for non-zero type"): "int:zero", ("char", "cannot parse char from empty string"): "char:empty",
           ("char", "too many characters in string"): "char:many", ("bool", "provided string was not `true` or `false`"): "bool",
           ("text", "not a tag"): "tag", ("text", "not raw"): "raw"}
def source_class(ty, text):
    if ty == "utf8": return "utf8"
    if ty == "ver" and text.startswith("bad version: "): return "ver"
    return SOURCES.get((ty, text), "unknown:%s:%s" % (ty, text))

def source_fits(s, text, value):
    """where the source repeats the value or a position in it, it is the reported value that it is about"""
    if s == "ver" and text.encode("utf-8", "surrogateescape") != b"bad version: " + value: return "foreign:" + text
    if s == "utf8":
        try: value.decode("utf-8"); return "foreign:" + text
        except UnicodeDecodeError as e:
            if not text.endswith("from index %d" % e.start): return "foreign:" + text
    return s

def val_json(v):
    f = [dict(p=p, v=[syms(bytes.fromhex(x)) for x in xs]) for p, xs in v["f"]]
    return dict(f=f, fl=[val_json(x) for x in v["fl"]],
                sub=[dict(n=syms(bytes.fromhex(n)), v=val_json(x)) for n, x in v["sub"]])

def help_path(text, prog="prog"):
    """command path shown in the usage line, or None"""
    # a description may contain such a line, too
    m = re.search(r"^Usage: ?(%s(?: .*)?)$" % re.escape(prog), text, re.M)
    if not m: return None
    ws = m[1].split(" ")
    path = []
    for w in ws[1:]:
        if w == "" or w[0] in "-<[": break
        path.append(w)
    return path

def observed(line):
    """result line of the harness -> outcome record in the specification's shape"""
    o = dict(EMPTY)
    t = line.split("\t")
    if t[0] == "OK":
        o["k"] = "ok"; o["v"] = [val_json(json.loads(t[1]))]
    elif t[0] == "HELP":
        o["k"] = "help"
        text = bytes.fromhex(t[1]).decode("utf-8", "replace")
        p = help_path(text)
        if p is None or t[2] != "same": o["k"] = "badhelp:" + text[:200]
        else: o["p"] = [syms(x) for x in p]
        o["text"] = text
    elif t[0] == "ERR":
        msg = bytes.fromhex(t[1]).decode("utf-8", "surrogateescape")
        src = None if t[2] == "-" else bytes.fromhex(t[2].split(":")[1]).decode("utf-8", "surrogateescape")
        o["k"] = "err"; o["msg"] = msg
        if t[3] != "same":
            o["k"] = "badhelp"
        body = msg
        m = INV.match(body)
        if m:
            o["e"] = "InvalidValue"
            rest = body[m.end():]
            k = rest.rfind("\n  [possible values: ")
            if k >= 0 and rest.endswith("]"):
                lst = rest[k + len("\n  [possible values: "):-1]
                o["c"] = [syms(x) for x in lst.split(", ") if x]
                rest = rest[:k]
            if src is not None:
                o["s"] = source_class(t[2].split(":")[0], src)
                if not rest.endswith(": " + src): o["e"] = "Unclassified:" + msg
                else: rest = rest[:-len(": " + src)]
            if not rest.endswith("'"): o["e"] = "Unclassified:" + msg
            desc = rest[:-1]
            try:
                o["i"] = syms(uq(m[1]))
                o["s"] = source_fits(o["s"], src, unsyms(o["i"]))
            except Exception: o["e"] = "Unclassified:" + msg
            o["d"] = [] if desc == "<unknown argument>" else syms(desc)
            return o
        if src is not None: o["s"] = source_class(t[2].split(":")[0], src)
        for e, pat, gd, gi in PATS:
            m = pat.match(body)
            if m:
                o["e"] = e
                if gd is not None and m[gd] != "<unknown argument>": o["d"] = syms(m[gd])
                try:
                    if gi is not None: o["i"] = syms(uq(m[gi]))
                except Exception:
                    o["e"] = "Unclassified:" + msg
                break
        else:
            o["e"] = "Unclassified:" + msg
    else:
        o["k"] = "crash"; o["msg"] = line
    return o

FULL = ("k", "e", "d", "i", "c", "s", "v", "p")
KIND = ("k", "e", "v", "p")          # result and kind of error
ACCEPT = ("k", "v", "p")             # accepted? value / help scope

def proj(o, keys):
    r = []
    for k in keys:
        v = o[k]
        if k == "c": v = sorted(json.dumps(x) for x in v)
        r.append(v)
    return json.dumps(r, sort_keys=True)

def matches(obs, outs, keys):
    p = proj(obs, keys)
    return any(proj(o, keys) == p for o in outs)

def show(o):
    """human-readable outcome"""
    if o["k"] == "ok":
        def sv(v):
            x = ", ".join(f["p"] + "(" + ", ".join(repr(unsyms(y)) for y in f["v"]) + ")" for f in v["f"])
            x = "{" + x
            if v["fl"]: x += " | " + " ".join(sv(y) for y in v["fl"])
            for s in v["sub"]: x += " > " + unsyms(s["n"]).decode() + sv(s["v"])
            return x + "}"
        return "ok " + sv(o["v"][0])
    if o["k"] == "help":
        return "help for /" + "/".join(unsyms(x).decode("utf-8", "replace") for x in o["p"])
    s = o["k"] + " " + o["e"]
    if o["d"]: s += " desc=%r" % unsyms(o["d"])
    if o["i"]: s += " input=%r" % unsyms(o["i"])
    if o["c"]: s += " choices=%r" % sorted(unsyms(x) for x in o["c"])
    if o["s"]: s += " source=" + o["s"]
    if o.get("msg"): s += "   [message: %r]" % o["msg"][:300]
    return s

# ----------------------------------------------------------------------------- TLC
def run_tlc(module, cfg, workdir, env, timeout, workers=8, heap="12g", extra=(), on_line=None, coverage=False):
    """Runs TLC; returns dict(states, distinct, out(list of non-CASE lines), violated). Raises ToolError on tool failures."""
    os.makedirs(workdir, exist_ok=True)
    cfgp = os.path.join(workdir, module + ".cfg")
    open(cfgp, "w").write(cfg)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cp = JAR + "/tla2tools.jar:" + JAR + "/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", cp, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-deadlock", "-fp", "7", "-config", cfgp] + list(extra) + (["-coverage", "1"] if coverage else []) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env); e.pop("JAVA_TOOL_OPTIONS", None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=workdir, text=True, errors="replace")
    killer = threading.Timer(timeout, p.kill); killer.start()
    out = []
    for ln in p.stdout:
        if ln.startswith('"CASE ') or ln.startswith('"MIS ') or ln.startswith('"ALT ') or ln.startswith('"ROW ') or ln.startswith('"PUMP '):
            if on_line: on_line(ln.rstrip("\n"))
            continue
        out.append(ln.rstrip("\n"))
    rc = p.wait(); killer.cancel()
    shutil.rmtree(meta, ignore_errors=True)
    text = "\n".join(out)
    open(os.path.join(workdir, module + ".out"), "w").write(text)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    mi = re.search(r"Finished computing initial states: (\d+) distinct", text)
    res = dict(rc=rc, init=int(mi[1]) if mi else 0, out=out, states=int(m[1]) if m else 0, distinct=int(m[2]) if m else 0)
    if "Model checking completed. No error has been found." in text and m:
        res["ok"] = True
        return res
    res["ok"] = False
    errs = [x for x in out if x.startswith("Error:")]
    raise ToolError("TLC failed on %s (rc %d): %s\n%s" % (module, rc, " ".join(errs[:3]), "\n".join(out[-60:])))

def unprint(line, tag):
    """a line printed by PrintT("TAG " \\o ToJson(x)) -> x"""
    s = json.loads(line)           # the TLA+ string literal uses JSON-compatible escapes
    assert s.startswith(tag + " ")
    return json.loads(s[len(tag) + 1:])
