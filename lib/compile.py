"""Which of many small modules does rustc accept?  Crates of modules are checked repeatedly; modules with
errors are taken out until the rest compiles."""
from core import *

def verdicts(name, mods, timeout=700, ncrates=8):
    """mods: list of Rust texts -> list of (accepted, diagnostics)"""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(d):
        if x != "target": shutil.rmtree(os.path.join(d, x)) if os.path.isdir(os.path.join(d, x)) else os.remove(os.path.join(d, x))
    ncrates = max(1, min(ncrates, len(mods)))
    crates = ["c%d" % i for i in range(ncrates)]
    open(os.path.join(d, "Cargo.toml"), "w").write("[workspace]\nresolver = \"2\"\nmembers = [%s]\n[profile.dev]\ndebug = 0\n" % ", ".join('"%s"' % c for c in crates))
    lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read()
    ent = re.search(r'\[\[package\]\]\nname = "harness"\n.*?(?=\n\[\[|\Z)', lock, re.S)[0]
    lock = lock.replace(ent, "\n\n".join(ent.replace('"harness"', '"%s"' % c) for c in crates))
    open(os.path.join(d, "Cargo.lock"), "w").write(lock)
    sup = open(os.path.join(VERIF, "harness", "support.rs")).read()
    alive = {c: [i for i in range(len(mods)) if i % ncrates == n] for n, c in enumerate(crates)}
    for c in crates:
        os.makedirs(os.path.join(d, c, "src"))
        open(os.path.join(d, c, "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2024"\ndescription = "package description text"\npublish = false\n[dependencies]\npalc = { path = "%s" }\n' % (c, REPO))
        open(os.path.join(d, c, "src", "support.rs"), "w").write(sup)
        for i in alive[c]: open(os.path.join(d, c, "src", "m%d.rs" % i), "w").write("#![allow(warnings)]\n" + mods[i])
    bad = {}
    rounds = 0
    while True:
        rounds += 1
        for c in crates:
            open(os.path.join(d, c, "src", "lib.rs"), "w").write("#![allow(warnings)]\n#![recursion_limit = \"512\"]\npub mod support;\n" + "".join("pub mod m%d;\n" % i for i in alive[c]))
        r = subprocess.run(["cargo", "check", "--offline", "--workspace", "--keep-going", "--message-format=json", "--quiet"], cwd=d, env=cargo_env(), capture_output=True, text=True, timeout=timeout)
        if r.returncode == 0: break
        removed, lost = 0, []
        for ln in r.stdout.split("\n"):
            if not ln.startswith("{"): continue
            m = json.loads(ln)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"): continue
            files = set()
            def spans(s):
                files.add(s["file_name"])
                if s.get("expansion"): spans(s["expansion"]["span"])
            for s in m["message"]["spans"]: spans(s)
            for ch in m["message"].get("children", []):
                for s in ch["spans"]: spans(s)
            hit = {int(x) for f in files for x in re.findall(r"/m(\d+)\.rs$", "/" + f)}
            # several modules: the primary span decides
            if len(hit) > 1:
                hit = {int(x) for s in m["message"]["spans"] if s["is_primary"] for x in re.findall(r"/m(\d+)\.rs$", "/" + s["file_name"])} or hit
            if not hit:
                if m["message"]["spans"]: lost.append(m["message"]["rendered"])
                elif not re.match(r"aborting due to|could not compile", m["message"]["message"]): lost.append(m["message"]["rendered"])
            for i in hit:
                bad.setdefault(i, []).append(m["message"]["message"])
        for c in crates:
            n = len(alive[c]); alive[c] = [i for i in alive[c] if i not in bad]; removed += n - len(alive[c])
        if removed == 0:
            raise BuildFailed(name, "\n".join(lost) or r.stderr[-3000:])
    log("rustc decided %d modules in %d rounds (%d accepted)" % (len(mods), rounds, len(mods) - len(bad)))
    return [(i not in bad, bad.get(i, [])) for i in range(len(mods))]
