"""One function per property: which definitions, which argvs, which theorems, which parts of an outcome."""
from runner import *
import math
import rand, loose, compile

# what the random part of a check is biased towards
KN = dict(
    C01=dict(alias=.6, salias=.5, weird=.5, both=.7, glob=.25, flat=.45, named=.85, cons=0, icase=.1, req=.03, last=.05, trailing=.05),
    C02=dict(flag=.55, shortonly=.6, both=.8, salias=.5, weird=.4, glob=.3, nf=(3, 7), named=.9, cons=.02, req=.02, enum=.1, opt=.8),
    C03=dict(hy=.5, reqeq=.3, optopt=.25, flag=.15, text=.6, named=.85, opt=.8, cons=0, req=.02, glob=.2, last=.05, trailing=.05),
    C04=dict(named=.35, nf=(2, 7), text=.6, cons=.03, req=.2, flat=.2, vec=.3, hy=.1, last=.2, trailing=.1),
    C05=dict(named=.45, nf=(2, 6), last=.6, hy=.4, text=.7, cons=0, req=.05, vec=.45, sub=.4),
    C06=dict(named=.5, nf=(2, 6), trailing=.8, last=.15, text=.7, cons=0, req=.05, vec=.6, sub=.5),
    C07=dict(sub=.95, depth=3, cmds=(2, 7), nf=(0, 3), cons=.02, req=.05, flat=.2, opt=.8, named=.6),
    C08=dict(glob=.6, sub=.95, depth=3, cmds=(1, 3), nf=(1, 4), cons=.04, req=.05, flat=.5, collide=.5, opt=.7, named=.85, weird=.1, explicit=.6, helpname=.08),
    C09=dict(flat=.95, flat2=.7, depth=1, collide=0, glob=.25, excl=0, req=.25, nflat=[1, 1, 2, 2, 3], cons=.12, named=.8, sub=.5, nf=(1, 4), opt=.6),
    C10=dict(vec=.55, delim=.6, optopt=.12, flag=.25, dflt=.15, cons=0, req=.03, opt=.9, glob=.3, alias=.5, text=.6),
    C11=dict(cons=.45, req=.25, excl=.12, dflt=.25, nf=(2, 5), opt=.75, text=.7, enum=.05, glob=.2, flat=.3, sub=.4, flat2=.2, weird=.05, hy=.05),
    C12=dict(dflt=.75, vec=.3, delim=.5, opt=.5, flag=.15, glob=.25, flat=.4, sub=.5, cons=.05, req=0, enum=.25, icase=.4, depth=1),
    C13=dict(text=.9, weird=.7, opt=.85, cons=0, req=.03, hy=.3),
    C14=dict(enum=.6, icase=.5, text=.2, opt=.8, vec=.35, delim=.5, cons=0, req=.03, flag=.1, optopt=.15, named=.75),
    C15=dict(vname=.4, weird=.35, flat=.5, flat2=.5, both=.6, cons=.15, req=.2, excl=.05, enum=.3),
    C16=dict(helpname=.12, sub=.8, depth=2, flag=.5, shortonly=.4, glob=.25, trailing=.25, hy=.25, req=.25, explicit=.6),
    C17=dict(doc=.75, about=.75, labout=.3, after=.4, hide=.15, dflt=.4, flat=.4, flat2=.4, sub=.8, depth=2, req=.25, weird=.3, both=.6, vname=.3, cons=.02, last=.2, named=.65, nf=(1, 5), icase=.1),
    C18=dict(doc=.3, about=.3, hide=.2, dflt=.3, flat=.5, flat2=.5, sub=.6, depth=1, req=.2, weird=.3, vname=.3, cons=.15, nf=(1, 4), delim=.5, icase=.3, hy=.2, optopt=.15),
    C19=dict(helpname=.06, sub=.6, cons=.1),
    C20=dict(doc=.3, about=.5, sub=.6, opt=.8, raw=.3),
    C22=dict(glob=.3, flat=.4, sub=.5, depth=2, opt=.8, req=.03, text=.3, dflt=.2, delim=.4, tagged=.5, cons=.05),
    C23=dict(vec=.35, delim=.6, text=.75, tagged=.3, dflt=.5, flat=.4, sub=.5, depth=2, glob=.25, opt=.7, req=.05, cons=.08, optopt=.12, named=.6, trailing=.15, last=.15),
    C21=dict(vec=.35, cons=.1, glob=.2, flat=.4, opt=.85, req=.03, named=.75, hy=.15, dflt=.2, trailing=.04, last=.08, nf=(2, 6)),
)

def randoms(ck, n, alen, an, knobs, tag="", twin=False):
    out = []
    for i in range(n):
        r = random.Random("%s/%s/%s/%d" % (ck.seed, ck.pid, tag, i))
        d = rand.Gen(r, **knobs).definition("r%s%d" % (tag, i))
        d.macro = i % 4 == 3 or "ALLMAC" in os.environ
        f = families.Fam(d, [families.Scope(rand.alphabet(r, d, an), alen)] if alen else [], twin=twin)
        f.rand = True
        out.append(f)
    return out

def scripts(ck, p, per_rand, per_hand, raw=.1):
    scr = []
    for f in p.fams:
        r = random.Random("%s/%s/%s" % (ck.seed, ck.pid, f.d.name))
        k = per_rand if getattr(f, "rand", False) else per_hand
        gens = [rand.Scripts(r, f.d, raw, noise) for noise in (0, 0, .5, 1)]
        for j in range(k): scr.append((f.idx, gens[j % 4].line()))
    return scr

WIDE = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C14", "C15", "C16", "C21")
CTX = ("C01", "C02", "C03", "C10", "C11", "C12", "C13", "C14", "C15", "C16")
ALL_ACT = ["WriteOnce", "AfterTerminator", "Greedy", "ValueOrRefuse", "GlobalsOnlyOutside"]

def std(ck, theorems=(), steps=(), keys=KIND, alt=None, nrand=(50, 150), scr=(100, 60), alen=(2, 3), an=(9, 12), raw=.1, help_on=True, fams=None, twin=False, pump=0):
    """hand-made definitions with exhaustive scopes + random definitions with small exhaustive scopes and many recorded calls"""
    t = ck.thorough
    fams = list(getattr(families, ck.pid.lower())(ck.tier) if fams is None else fams)
    pick = lambda x: x[1] if t else x[0]
    rounds = 5 if t else 1
    for rd in range(rounds):
        fs = (fams + (families.wide(ck.tier, ck.pid) if help_on and ck.pid in WIDE else []) + (families.contexts(fams, ck.tier) if help_on and ck.pid in CTX else []) if rd == 0 else []) + randoms(ck, pick(nrand), pick(alen), pick(an), KN[ck.pid], "%d_" % rd if rd else "", twin)
        p = Pipeline(ck, fs, help_on=help_on, name="h_%s%s" % (ck.pid, "" if help_on else "_off"))
        p.gen(inv=["I_" + x for x in theorems], act=["A_" + x for x in steps], keys=keys, alt=alt, pump=pump)
        p.trace(scripts(ck, p, scr[0] * (4 if t else 1), scr[1] * (6 if t else 1) if rd == 0 else 0, raw), inv=["T_" + x for x in theorems if x != "Twins"], act=["TA_" + x for x in steps], keys=keys, alt=alt)
    return p

def c01(ck): std(ck, ["Respell", "HistoryReplays"], alt="Alt_respell"); return ck.finish()
def c02(ck): std(ck, ["HistoryReplays", "Rebundle"], alt="Alt_bundle", keys=("k", "e", "i", "v", "p")); return ck.finish()
def c03(ck): std(ck, ["Conserve"], ["ValueOrRefuse"]); return ck.finish()
def c04(ck): std(ck, ["Positional", "Conserve"], keys=("k", "e", "i", "v", "p"), pump=7); return ck.finish()
def c05(ck): std(ck, ["Positional"], ["AfterTerminator", "Greedy"], pump=7); return ck.finish()
def c06(ck): std(ck, ["Conserve"], ["Greedy", "AfterTerminator"], pump=7); return ck.finish()
def c07(ck): std(ck, ["HistoryReplays"], ["GlobalsOnlyOutside"], keys=("k", "e", "i", "v", "p")); return ck.finish()
def c08(ck): std(ck, fams=families.c08(ck.tier) + families.borrowed(ck.tier, "g"), theorems= ["GlobalMove", "Conserve"], steps=["GlobalsOnlyOutside", "WriteOnce"], alt="Alt_globalmove", pump=7); return ck.finish()
def c09(ck): std(ck, fams=families.c09(ck.tier) + families.borrowed(ck.tier, "f", True), theorems= ["Inline", "Twins"], twin=True, keys=("k", "e", "d", "i", "c", "v", "p")); return ck.finish()
def c10(ck): std(ck, ["Conserve"], ["WriteOnce"], pump=7); return ck.finish()
def c11(ck): std(ck, ["ConstraintsExact"]); return ck.finish()
def c12(ck): std(ck, ["Defaults", "ConstraintsExact"]); return ck.finish()
def c13(ck): std(ck, ["Conserve"], keys=("k", "e", "i", "v", "p"), raw=.6); return ck.finish()
def c14(ck): std(ck, ["Conserve", "Defaults"], keys=("k", "e", "i", "c", "s", "v", "p")); return ck.finish()
def c15(ck): std(ck, ["FirstError"], keys=FULL); return ck.finish()
def c16(ck): std(ck, ["Help", "FirstError"], keys=KIND); return ck.finish()
def help_calls(ck, p, n):
    """help of every command, reached in several ways"""
    scr = []
    for f in p.fams:
        r = random.Random("%s/%s/%s" % (ck.seed, ck.pid, f.d.name))
        def paths(s, pre):
            yield pre
            if s.sub:
                for v in s.sub[2].variants:
                    yield from paths(v.s, pre + [tb(rand.cmd_name(v.ident))])
        for p_ in paths(f.d.root, []):
            scr.append((f.idx, p_ + [b"--help"])); scr.append((f.idx, p_ + [b"-h"]))
        g = rand.Scripts(r, f.d, .1, .5)
        for _ in range(n):
            a = g.line(); a.insert(r.randint(0, len(a)), r.choice([b"-h", b"--help"])); scr.append((f.idx, a))
    return scr

def c17(ck):
    for rd in range(4 if ck.thorough else 1):
        fs = (families.c17(ck.tier) if rd == 0 else []) + randoms(ck, 200 if ck.thorough else 110, 0, 0, KN["C17"], "%d_" % rd if rd else "")
        p = Pipeline(ck, fs)
        p.helps(help_calls(ck, p, 25 if ck.thorough else 10), ["I_Help", "I_Names"])
    return ck.finish()
def c18(ck):
    t = ck.thorough
    # 1. which derive applies to what, which attributes are known where
    rows = []
    r = run_tlc("MCShape", "SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT I_Disjoint\n", ck.wd, {}, 300, on_line=lambda l: rows.append(unprint(l, "ROW")))
    ck.cov["states"] += r["distinct"]
    shapes = [(loose.shape_rust(s), ok, json.dumps(s, ensure_ascii=False), "shape") for s, ok in rows]
    judge(ck, shapes, "c_C18s")
    ck.cov["shapes"] = len(shapes)
    # 2. definitions under edit
    for rd in range(4 if t else 1):
        fams = families.c18(ck.tier) + [f for f in randoms(ck, 60 if t else 16, 0, 0, KN["C18"], "%d_" % rd)]
        hand = len(families.c18(ck.tier))
        seeds = [loose.seed_json(f.d) for f in fams]
        salt = ck.seed * 1000 + rd
        inp = dict(help=True, defs=seeds, toks=[["x"]], scopes=[], keys=[], types=[loose.ty_json(x) for x in loose.TYPES], odd=[syms(x) for x in loose.ODD],
                   budget=[(3 if t else 2) if i < hand else 1 for i in range(len(seeds))], one=[1 if i < hand else 6 for i in range(len(seeds))],
                   every=4 if t else 10, branch=20 if t else 40, salt=salt)
        p = os.path.join(ck.wd, "defs_derive.json"); json.dump(inp, open(p, "w"))
        rows = []
        r = run_tlc("MCDerive", "SPECIFICATION Spec\nINVARIANT I_Judge\n", ck.wd, {"PALC_DEFS": p}, 850, on_line=lambda l: rows.append(unprint(l, "ROW")))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        log("TLC: %d definitions reached, %d chosen (%d with one edit)" % (r["distinct"], len(rows), sum(row[1] == 1 for row in rows)))
        rows.sort(key=lambda x: json.dumps(x, sort_keys=True))
        defs = [loose.Loose(d, "e%d" % i) for i, (_, _, d, _) in enumerate(rows)]
        sole = ck.cov.setdefault("definitions_breaking_only_this_rule", {})
        for _, _, _, viol in rows:
            if len(viol) == 1: sole[viol[0]] = sole.get(viol[0], 0) + 1
        ok = judge(ck, [(x.rust(), row[3] == [], "seed %s, %d edit(s)%s" % (fams[row[0] - 1].d.name, row[1], "" if not row[3] else ", violated: " + "; ".join(row[3])), "definition") for x, row in zip(defs, rows)], "c_C18")
        # 3. the accepted ones behave as declared
        good = [i for i, (a, row) in enumerate(zip(ok, rows)) if a and row[3] == [] and row[1] > 0]
        ck.rng.shuffle(good)
        fs = []
        for i in good[:600 if t else 200]:
            f = families.Fam(defs[i].d, [])
            f.d.name = "edited%d" % i
            f.d.macro = i % 2 == 1
            try: f.scopes = [families.Scope(rand.alphabet(random.Random("%d/%d" % (salt, i)), f.d, 8), 2)]
            except (IndexError, ValueError): pass
            f.rand = True; fs.append(f)
        pl = Pipeline(ck, fs, name="h_C18")
        pl.gen(keys=FULL)
        pl.trace(scripts(ck, pl, 40, 0), keys=FULL)
    return ck.finish()

def judge(ck, items, name):
    """items: (Rust text, well-formed?, description, what) -> accepted?; the compiler has to agree with the specification"""
    v = compile.verdicts(name, [x[0] for x in items])
    for (src, ok, text, what), (acc, msgs) in zip(items, v):
        if acc and not ok:
            ck.violation("accepted:" + hashlib.sha256(src.encode()).hexdigest()[:12], "%s has to be rejected but compiles: %s\n%s" % (what, text, src))
        elif ok and not acc:
            ck.violation("rejected:" + hashlib.sha256(src.encode()).hexdigest()[:12], "%s is well-formed but does not compile: %s\n  %s\n%s" % (what, text, " | ".join(msgs[:3]), src))
        elif any(m.startswith("proc-macro") or "internal compiler error" in m for m in msgs):
            ck.violation("panic:" + hashlib.sha256(src.encode()).hexdigest()[:12], "the derive macro panics instead of reporting what is wrong: %s\n  %s\n%s" % (text, " | ".join(msgs[:3]), src))
    ck.cov["traces_validated_against_impl"] += len(items)
    ck.cov["accepted_by_rustc"] = ck.cov.get("accepted_by_rustc", 0) + sum(a for a, _ in v)
    ck.cov["rejected_by_rustc"] = ck.cov.get("rejected_by_rustc", 0) + sum(not a for a, _ in v)
    for i in range(0, len(items), max(1, len(items) // 3)):
        ck.samples.append("%s -> %s%s" % (items[i][2], "accepted" if v[i][0] else "rejected: ", "; ".join(v[i][1][:2])))
    return [a for a, _ in v]

def c19(ck):
    fams = families.c19(ck.tier)
    if not ck.thorough: fams = fams[:-3][ck.seed % 2::2] + fams[-3:]
    std(ck, ["HelpOff"], keys=FULL, help_on=False, fams=fams)
    std(ck, ["HelpOff"], keys=FULL, help_on=True, fams=fams[:12] if not ck.thorough else fams)
    return ck.finish()
ARGV0 = [b"prog", b"/usr/bin/prog", b"./prog", b"../x/prog", b"dir/prog/", b"prog/.", b"prog/./", b"", b"/", b"//", b".", b"./", b"..", b"a/..", b"/..", b"...", b"/.", b"--help", b"-h", b"sub",
         b"/bin/sub", b"-f", b"--", b"-", b"my prog", b"\xff", b"dir\xff/pr\xffog", "ünï/cödé".encode(), b"//x//y//", b"a/./b", b"x/...", b"prog.exe", b"=", b"--req=1", b"{}", b"\xff/\xfe", b"a\\b", b"a b/c d"]

def c20(ck):
    for rd in range(3 if ck.thorough else 1):
        fs = (families.c20(ck.tier) if rd == 0 else []) + randoms(ck, 60 if ck.thorough else 20, 0, 0, KN["C20"], "%d_" % rd if rd else "")
        p = Pipeline(ck, fs, process=True)
        cases = []
        for f in fs:
            r = random.Random("%s/%s/%s" % (ck.seed, ck.pid, f.d.name))
            cases.append((f.idx, []))
            gens = [rand.Scripts(r, f.d, .2, noise) for noise in (0, 0, .5, 1)]
            calls = list(getattr(f, "calls", []))
            for a in calls:
                for z in ARGV0: cases.append((f.idx, [z] + [tb(x) for x in a]))
            for j in range((300 if ck.thorough else 60) if getattr(f, "rand", False) else 200):
                cases.append((f.idx, [r.choice(ARGV0)] + [x.replace(b"\0", b"") for x in gens[j % 4].line()]))
        p.procs(cases, ["P_Streams", "P_Arg0Inert", "P_UserIffOk", "P_Name"], ["A_NoUserAfterReport"])
    return ck.finish()
def c21(ck): std(ck, ["Swap"], alt="Alt_swap"); return ck.finish()

def c22(ck):
    """several calls at once: TLC enumerates the schedules, the harness follows them read by read"""
    for rd in range(3 if ck.thorough else 1):
        fs = (families.c22(ck.tier) if rd == 0 else []) + randoms(ck, 16 if ck.thorough else 8, 0, 0, KN["C22"], "%d_" % rd if rd else "")
        p = Pipeline(ck, fs)
        r = random.Random("%s/%s/%d" % (ck.seed, ck.pid, rd))
        pool = []
        for f in fs:
            g = [rand.Scripts(r, f.d, .05, noise) for noise in (0, 0, .3)]
            for a in getattr(f, "calls", []) or [[r.choice(ARGV0) or b"prog"] + (lambda l: l[:5] if len(l) < 9 else l[:3])(g[j % 3].line()) for j in range(10)]: pool.append((f.idx, a))
        bound = lambda ls: math.factorial(sum(len(a) + 1 for _, a in ls)) // math.prod(math.factorial(len(a) + 1) for _, a in ls)
        groups = []
        for k, n, lim in ((2, 600 if ck.thorough else 150, 1000), (3, 250 if ck.thorough else 50, 3500)):
            tries = 0
            while sum(len(x["calls"]) == k for x in groups) < 2 * n and tries < 20000:
                tries += 1
                ls = r.sample(pool, k)
                if tries % 3 == 0: ls[1] = (ls[0][0], r.choice([a for d, a in pool if d == ls[0][0]]))     # the same definition twice
                if tries % 11 == 0: ls[1] = ls[0]                                                          # the very same argv twice
                if bound(ls) > lim: continue
                for mode in ("threads", "nested"): groups.append(dict(mode=mode, calls=[dict(d=d, a=list(a)) for d, a in ls]))
        p.calls(groups, pool)
    return ck.finish()

def c23(ck):
    """which user code (conversions, default expressions) runs, how often and in which order"""
    for rd in range(3 if ck.thorough else 1):
        fs = (families.c23(ck.tier) if rd == 0 else []) + [families.noticing(f) for f in randoms(ck, 120 if ck.thorough else 50, 1, 12, KN["C23"], "%d_" % rd if rd else "")]
        for f in fs: f.rand = f.d.name.startswith("r")
        p = Pipeline(ck, fs)
        uniq, _ = p.gen(keys=("k", "e", "i", "v", "p"))
        todo = [(d, a) for d, a, _ in uniq]
        if len(todo) > (60000 if ck.thorough else 15000): todo = ck.rng.sample(todo, 60000 if ck.thorough else 15000)
        p.effects(todo + scripts(ck, p, 240 if ck.thorough else 60, 240 if ck.thorough else 60, 0))
    return ck.finish()

CHECKS = {k.upper(): v for k, v in globals().items() if re.fullmatch(r"c\d\d", k)}
