"""Runs one property's check: TLC on the specification, the real code on the same cases, compare, report."""
import json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import core
from core import *
import families

GEN_INV = ["I_Type", "I_GuardsPartition"]
GEN_ACT = ["A_ErrorFinal", "A_ScopeOnlyGrows", "A_OneOccurrence"]

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations, self.samples, self.known_hit = [], [], {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.known = load_known(pid)
        self.wd = os.path.join(BUILD, "run_" + pid)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd, exist_ok=True)
        self.rng = random.Random("%s/%s" % (seed, pid))
        self.thorough = tier == "thorough"

    # -- reporting
    def violation(self, key, text):
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k["what"]; return
        self.violations.append((key, text))

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.cov["samples"] = self.samples[:12] or ["(none)"]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k, w in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if self.violations:
            rp = os.path.join(BUILD, "replay_%s.txt" % self.pid)
            with open(rp, "w") as f:
                f.write("property %s: %d violation(s); first ones:\n\n" % (self.pid, len(self.violations)))
                for k, t in self.violations[:40]: f.write(t + "\n\n")
            print(open(rp).read()[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        log("held on everything explored")
        return 0

ASSUME = ["the TLA+ specification states the property correctly (its theorems are checked by TLC in the same run)",
          "gen/dsl.py emits the same definition as JSON and as Rust",
          "definitions, argv lengths and token pools are bounded as described in DESIGN.md"]

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k["property"] == pid: out.append(k)
    return out

def pumped(x, y, k):
    """x, y: an outcome with something repeated once and twice -> the outcome with k repetitions"""
    if x == y: return x
    if isinstance(x, dict): return {f: pumped(x[f], y[f], k) for f in x}
    if isinstance(x, list) and len(x) == len(y): return [pumped(a, b, k) for a, b in zip(x, y)]
    if isinstance(x, list) and len(y) > len(x):
        a = 0
        while a < len(x) and x[a] == y[a]: a += 1
        n = len(y) - len(x)
        if x[a:] == y[a + n:]: return x[:a] + y[a:a + n] * (k - 1) + x[a:]
    raise ToolError("repeating made no list longer: %r %r" % (x, y))

# ----------------------------------------------------------------------------- the standard pipeline
class Pipeline:
    def __init__(self, ck, fams, help_on=True, name=None, release=False, process=False):
        self.ck, self.fams, self.help_on = ck, fams, help_on
        self.name = name or "h_" + ck.pid
        self.defs, self.pump = [], 1
        for f in fams:
            f.idx = len(self.defs) + 1
            self.defs.append(f.d)
            f.tidx = 0
            if f.twin:
                f.tidx = len(self.defs) + 1
                self.defs.append(f.d.make_twin())
        self.exe = build_harness(self.name, self.defs, help_on, release, process)
        log("built %d definitions" % len(self.defs))

    def input(self, keys, scopes=None):
        toks, ti = [], {}
        def t(b):
            if b not in ti: ti[b] = len(toks) + 1; toks.append(syms(b))
            return ti[b]
        sc = []
        for f in self.fams:
            for s in f.scopes:
                sc.append(dict(d=f.idx, alpha=[t(b) for b in s.alpha], len=s.n, prefix=[t(b) for b in s.prefix], tail=[t(b) for b in s.tail]))
        ds = [d.json() for d in self.defs]
        for f in self.fams:
            if f.tidx: ds[f.idx - 1]["twin"] = f.tidx
        self.toks = [None] + list(ti)
        return dict(help=self.help_on, pump=self.pump, defs=ds, toks=toks or [["x"]], scopes=sc, keys=list(keys))

    def label(self, d, argv):
        return "definition %s, argv %s" % (self.defs[d - 1].name, [bytes(a) for a in argv])

    def compare(self, d, argv, line, outs, keys):
        o = observed(line)
        if not matches(o, outs, keys):
            key = "%s:%s" % (self.defs[d - 1].name, ",".join(hexs(a) for a in argv))
            self.ck.violation(key, "%s%s\n  observed: %s\n  allowed:  %s" % (
                self.label(d, argv), "" if self.help_on else " (feature help off)", show(o), "\n            ".join(show(x) for x in outs)))
        return o

    def alts(self, lines, keys, limit):
        """argvs the specification declares equivalent to an explored one -> replay -> compare"""
        ck = self.ck
        lines.sort()
        seen, cs = set(), []
        for ln in lines:
            d, al, outs = unprint(ln, "ALT")
            for a in al:
                b = tuple(unsyms(x) for x in a)
                if (d, b) not in seen: seen.add((d, b)); cs.append((d, list(b), outs))
        total = len(cs)
        if len(cs) > limit: cs = ck.rng.sample(cs, limit)
        res = replay(self.exe, [(d, [b"prog"] + a) for d, a, _ in cs])
        okc = 0
        for (d, a, outs), line in zip(cs, res):
            okc += self.compare(d, a, line, outs, keys)["k"] == "ok"
        ck.cov["traces_validated_against_impl"] += len(cs)
        ck.cov["equivalent_argvs_replayed"] = ck.cov.get("equivalent_argvs_replayed", 0) + len(cs)
        ck.cov["equivalent_argvs_accepted"] = ck.cov.get("equivalent_argvs_accepted", 0) + okc
        log("replayed %d of %d equivalent argvs (%d accepted), violations so far %d" % (len(cs), total, okc, len(ck.violations)))

    def gen(self, inv=(), act=(), keys=KIND, timeout=800, extra_twin=None, alt=None, alt_limit=40000, pump=0):
        """exhaustive exploration -> cases -> replay -> compare"""
        ck = self.ck
        self.pump = pump or 1
        inp = self.input(keys)
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(inp, open(p, "w"))
        if not inp["scopes"]: return
        cfg = "SPECIFICATION Spec\nINVARIANT Emit\n" + "".join("INVARIANT %s\n" % i for i in list(inv) + GEN_INV) + \
              "".join("PROPERTY %s\n" % a for a in list(act) + GEN_ACT) + ("INVARIANT %s\n" % alt if alt else "") + ("INVARIANT I_Pump\nINVARIANT EmitPumps\n" if pump else "")
        cases, altl, pumpl = [], [], []
        r = run_tlc("MCGen", cfg, ck.wd, {"PALC_DEFS": p}, timeout, on_line=lambda ln: (altl if ln.startswith('"ALT') else pumpl if ln.startswith('"PUMP') else cases).append(ln))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        log("TLC: %d states, %d generated, %d cases" % (r["distinct"], r["states"], len(cases)))
        cs = [unprint(c, "CASE") for c in cases]
        # initial states and (rarely) parallel duplicates: keep one per (d, argv)
        seen, uniq = set(), []
        for d, a, outs in cs:
            k = (d, tuple(a))
            if k not in seen: seen.add(k); uniq.append((d, [self.toks[i] for i in a], outs))
        res = replay(self.exe, [(d, [b"prog"] + a) for d, a, _ in uniq])
        okc = 0
        for (d, a, outs), line in zip(uniq, res):
            o = self.compare(d, a, line, outs, keys)
            okc += o["k"] == "ok"
            if extra_twin: extra_twin(d, a, line)
        ck.cov["traces_validated_against_impl"] += len(uniq)
        ck.cov["gen_cases"] = ck.cov.get("gen_cases", 0) + len(uniq)
        ck.cov["gen_accepted"] = ck.cov.get("gen_accepted", 0) + okc
        for i in range(0, len(uniq), max(1, len(uniq) // 5)):
            d, a, outs = uniq[i]
            ck.samples.append("%s -> %s" % (self.label(d, a), show(observed(res[i]))))
        log("replayed %d cases (%d accepted), violations so far %d" % (len(uniq), okc, len(ck.violations)))
        if alt: self.alts(altl, keys, alt_limit)
        if pump: self.pumps(pumpl, keys)
        return uniq, res

    def pumps(self, lines, keys):
        """argvs that only differ in how often some elements are repeated, with up to tens of thousands of repetitions"""
        ck = self.ck
        lines = sorted(set(lines))
        total = len(lines)
        if total > 6000: lines = ck.rng.sample(lines, 6000)
        rows = [unprint(ln, "PUMP") for ln in lines]
        ks = [(300, len(rows)), (1025, 600), (4200, 300), (33000, 40), (70000, 24)]
        for k, n in ks:
            byd = {}
            for r in rows: byd.setdefault(r[0], []).append(r)
            pick = []
            if n >= len(rows): pick = rows
            else:            # a few of every definition
                while len(pick) < n and byd:
                    for d in list(byd):
                        pick.append(byd[d].pop(ck.rng.randrange(len(byd[d]))))
                        if not byd[d]: del byd[d]
                        if len(pick) >= n: break
            cs = []
            for d, a, j, m, o1, o2 in pick:
                a = [self.toks[i] for i in a]
                outs = [pumped(x, y, k) for x, y in zip(o1, o2)] if len(o1) == len(o2) == 1 else o1 if o1 == o2 else None
                if outs is not None: cs.append((d, a[:j - 1] + a[j - 1:j - 1 + m] * k + a[j - 1 + m:], outs, a, j, m))
            res = replay(self.exe, [(d, [b"prog"] + a) for d, a, *_ in cs])
            for (d, a, outs, base, j, m), line in zip(cs, res):
                o = observed(line)
                if not matches(o, outs, keys):
                    ck.violation("pump:%s:%d:%d:%d:%s" % (self.defs[d - 1].name, j, m, k, ",".join(hexs(x) for x in base)), "%s with elements %d..%d repeated %d times\n  observed: %s\n  allowed:  %s" % (
                        self.label(d, base), j, j + m - 1, k, show(o)[:600], "\n            ".join(show(x)[:600] for x in outs)))
            ck.cov["traces_validated_against_impl"] += len(cs)
            ck.cov["long_argvs_replayed"] = ck.cov.get("long_argvs_replayed", 0) + len(cs)
        log("replayed long argvs of %d repeatable segments (%d found), violations so far %d" % (len(rows), total, len(ck.violations)))

    def trace(self, scripts, inv=(), act=(), keys=KIND, timeout=800, alt=None, alt_limit=40000):
        """scripts: list of (definition index, argv) run on the real parser; TLC validates the recorded calls"""
        ck = self.ck
        seen, uniq = set(), []
        for d, a in scripts:
            k = (d, tuple(a))
            if k not in seen: seen.add(k); uniq.append((d, list(a)))
        if not uniq: return
        res = replay(self.exe, [(d, [b"prog"] + a) for d, a in uniq])
        inp = self.input(keys)
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(inp, open(p, "w"))
        tp = os.path.join(ck.wd, "traces_%s.json" % self.name)
        traces, obs = [], []
        for (d, a), line in zip(uniq, res):
            o = observed(line); obs.append(o)
            traces.append(dict(d=d, a=[syms(x) for x in a], o={k: o[k] for k in FULL}))
        json.dump(traces, open(tp, "w"))
        cfg = "SPECIFICATION Spec\nINVARIANT Report\n" + "".join("INVARIANT %s\n" % i for i in list(inv) + ["T_Type"]) + \
              "".join("PROPERTY %s\n" % a for a in list(act) + ["TA_ErrorFinal", "TA_ScopeOnlyGrows", "TA_OneOccurrence"]) + ("INVARIANT %s\n" % alt if alt else "")
        mis, altl = [], []
        r = run_tlc("MCTrace", cfg, ck.wd, {"PALC_DEFS": p, "PALC_TRACES": tp}, timeout, on_line=lambda ln: (altl if ln.startswith('"ALT') else mis).append(ln))
        want = sum(len(a) + 1 for _, a in uniq)
        if r["distinct"] != want:
            raise ToolError("trace validation did not consume every recorded element: %d states, expected %d" % (r["distinct"], want))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        ck.cov["traces_validated_against_impl"] += len(uniq)
        ck.cov["recorded_calls"] = ck.cov.get("recorded_calls", 0) + len(uniq)
        okc = sum(o["k"] == "ok" for o in obs)
        ck.cov["recorded_accepted"] = ck.cov.get("recorded_accepted", 0) + okc
        done = set()
        for ln in mis:
            i, outs = unprint(ln, "MIS")
            if i in done: continue
            done.add(i)
            d, a = uniq[i - 1]
            key = "%s:%s" % (self.defs[d - 1].name, ",".join(hexs(x) for x in a))
            ck.violation(key, "%s%s\n  observed: %s\n  allowed:  %s" % (
                self.label(d, a), "" if self.help_on else " (feature help off)", show(obs[i - 1]), "\n            ".join(show(x) for x in outs)))
        for i in range(0, len(uniq), max(1, len(uniq) // 4)):
            ck.samples.append("%s -> %s" % (self.label(*uniq[i]), show(obs[i])))
        log("validated %d recorded calls (%d accepted by the parser), violations so far %d" % (len(uniq), okc, len(ck.violations)))
        if alt: self.alts(altl, keys, alt_limit)

    def procs(self, cases, inv=(), act=(), timeout=800):
        """cases: (definition, full argv incl. argv[0]): real processes calling parse(), the same argv through
        try_parse_from, and through other iterator and element types; validated against spec/MCProc.tla"""
        ck = self.ck
        seen, uniq = set(), []
        for d, a in cases:
            k = (d, tuple(a))
            if k not in seen: seen.add(k); uniq.append((d, list(a)))
        call = replay(self.exe, uniq)
        routes = replay(self.exe, uniq, env={"PALC_ROUTES": "1"})
        pi = [i for i, (d, a) in enumerate(uniq) if a]
        procs = dict(zip(pi, run_processes(self.exe, [uniq[i] for i in pi])))
        bi = pi[::3]
        broken = dict(zip(bi, run_processes(self.exe, [uniq[i] for i in bi], broken=True)))
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(self.input(FULL), open(p, "w"))
        traces, about = [], []
        for i, (d, a) in enumerate(uniq):
            o = observed(call[i])
            text = None
            if call[i].startswith("HELP"):
                o["k"] = "help"; o["p"] = []; text = bytes.fromhex(call[i].split("\t")[1])
            elif call[i].startswith("ERR"): text = bytes.fromhex(call[i].split("\t")[1])
            rec = dict(d=d, argv=[syms(x) for x in a], o={k: o[k] for k in FULL}, lines=[syms(x) for x in (text or b"").split(b"\n")])
            if not routes[i].startswith("SAME"):
                ck.violation("routes:%s" % self.label(d, a), "%s: the result depends on how argv is supplied: %s" % (self.label(d, a), routes[i][:600]))
            traces.append(dict(rec, mode="call", code=0, wrote=[], same=True, err="open")); about.append((i, "try_parse_from"))
            for err, res in (("open", procs), ("broken", broken)):
                if i not in res: continue
                rc, so, se = res[i]
                same = (so.decode("ascii", "replace") == call[i] + "\n") if call[i].startswith("OK") else text is not None and se == (text + b"\n" if err == "open" else b"")
                traces.append(dict(rec, mode="process", code=rc, wrote=(["stdout"] if so else []) + (["stderr"] if se else []), same=same, err=err))
                about.append((i, "process%s: exit status %s, stdout %r, stderr %r" % ("" if err == "open" else " whose stderr cannot be written to", rc, so[:300], se[:600])))
        tp = os.path.join(ck.wd, "traces_%s.json" % self.name)
        json.dump(traces, open(tp, "w"))
        cfg = "SPECIFICATION Spec\nINVARIANT Accepting\n" + "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % x for x in act)
        acc = set()
        r = run_tlc("MCProc", cfg, ck.wd, {"PALC_DEFS": p, "PALC_TRACES": tp}, timeout, on_line=lambda ln: acc.add(unprint(ln, "ROW")[0]))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        ck.cov["traces_validated_against_impl"] += len(traces)
        ck.cov["processes_run"] = ck.cov.get("processes_run", 0) + len(procs) + len(broken)
        ck.cov["processes_run_with_unwritable_stderr"] = ck.cov.get("processes_run_with_unwritable_stderr", 0) + len(broken)
        ck.cov["processes_exit_0"] = ck.cov.get("processes_exit_0", 0) + sum(1 for x in procs.values() if x[0] == 0)
        for n, (i, what) in enumerate(about):
            if n + 1 not in acc:
                d, a = uniq[i]
                ck.violation("%s:%s" % (self.defs[d - 1].name, ",".join(hexs(x) for x in a)),
                             "%s\n  no behaviour of the specification agrees with\n  %s\n  try_parse_from: %s" % (self.label(d, a), what, show(observed(call[i]))))
        for i in range(0, len(uniq), max(1, len(uniq) // 6)):
            ck.samples.append("%s -> exit %s" % (self.label(*uniq[i]), procs[i][0] if i in procs else "(call only)"))
        log("%d processes, %d records accepted of %d, violations so far %d" % (len(procs), len(acc), len(traces), len(ck.violations)))

    def effects(self, cases, inv=("E_OncePerValue", "E_NoDefaultWhileReading"), timeout=800):
        """cases: (definition, argv): which user code each call runs, in order; validated against spec/MCEffects.tla"""
        ck = self.ck
        seen, uniq = set(), []
        for d, a in cases:
            k = (d, tuple(a))
            if k not in seen: seen.add(k); uniq.append((d, list(a)))
        res = replay(self.exe, [(d, [b"prog"] + a) for d, a in uniq], env={"PALC_EFFECTS": "1"})
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(self.input(KIND), open(p, "w"))
        traces, evs = [], []
        for (d, a), line in zip(uniq, res):
            line, _, log_ = line.partition("\x1e")
            ev = [["conv" if x[0] == "c" else "dflt", syms(bytes.fromhex(x[1:]))] for x in log_.strip().split(",") if x]
            k = "help" if line.startswith("HELP") else observed(line)["k"]
            evs.append((k, ev)); traces.append(dict(d=d, a=[syms(x) for x in a], k=k, ev=ev))
        tp = os.path.join(ck.wd, "traces_%s.json" % self.name)
        json.dump(traces, open(tp, "w"))
        cfg = "SPECIFICATION Spec\nINVARIANT Accepting\nPROPERTY EA_Grows\n" + "".join("INVARIANT %s\n" % i for i in inv)
        acc = set()
        r = run_tlc("MCEffects", cfg, ck.wd, {"PALC_DEFS": p, "PALC_TRACES": tp}, timeout, on_line=lambda ln: acc.add(unprint(ln, "ROW")[0]))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        ck.cov["traces_validated_against_impl"] += len(traces)
        c = ck.cov
        c["events"] = c.get("events", 0) + sum(len(ev) for _, ev in evs)
        c["default_expressions_run"] = c.get("default_expressions_run", 0) + sum(x[0] == "dflt" for _, ev in evs for x in ev)
        for k in ("ok", "err", "help"): c["calls_" + k] = c.get("calls_" + k, 0) + sum(x == k for x, _ in evs)
        for i, (d, a) in enumerate(uniq):
            what = ", ".join("%s %r" % (x[0], unsyms(x[1])) for x in evs[i][1])
            if i + 1 not in acc:
                ck.violation("%s:%s" % (self.defs[d - 1].name, ",".join(hexs(x) for x in a)), "%s (%s)\n  the user code that ran is not what the specification allows: %s" % (self.label(d, a), evs[i][0], what or "none"))
            elif i % max(1, len(uniq) // 6) == 0: ck.samples.append("%s (%s) ran %s" % (self.label(d, a), evs[i][0], what or "nothing"))
        log("%d calls, %d accepted, violations so far %d" % (len(traces), len(acc), len(ck.violations)))

    def calls(self, groups, pool):
        """several calls at once: every schedule TLC finds is followed on the implementation, then the same calls unordered"""
        ck = self.ck
        inp = self.input(FULL)
        inp["groups"] = [dict(mode=g["mode"], calls=[dict(d=c["d"], a=[syms(x) for x in c["a"]]) for c in g["calls"]]) for g in groups]
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(inp, open(p, "w"))
        rows, outl = [], []
        cfg = "SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT EmitOut\nINVARIANT I_Independent\nINVARIANT I_NoReadAhead\nINVARIANT I_Stack\nPROPERTY A_Frame\n"
        r = run_tlc("MCCalls", cfg, ck.wd, {"PALC_DEFS": p}, 800, on_line=lambda ln: (outl if ln.startswith('"ROW') else rows).append(ln))
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        outs = dict(unprint(ln, "ROW") for ln in outl)
        sched = sorted(unprint(ln, "CASE") for ln in rows)
        log("TLC: %d states, %d schedules of %d groups of calls" % (r["distinct"], len(sched), len(groups)))
        # each call on its own, in a process of its own: what the others must not change
        alone = {}
        for c in {(c["d"], tuple(c["a"])) for g in groups for c in g["calls"]} | {(d, tuple(a)) for d, a in pool}: alone[c] = None
        keys = sorted(alone)
        res = [None] * len(keys)
        with ThreadPoolExecutor(8) as ex:
            for c, x in zip(keys, ex.map(lambda c: replay_lines(self.exe, [line_of(c[0], list(c[1]))], 1)[0], keys)): alone[c] = x
        head = {"threads": "T", "nested": "N"}
        def follow(todo):
            lines = ["%s\t%s\t%s" % (m, ",".join(str(x - 1) for x in s), "\t".join(line_of(c["d"], c["a"]) for c in g["calls"])) for m, s, g, _ in todo]
            for (m, s, g, o), line in zip(todo, replay_lines(self.exe, lines)):
                how = {"T": "threads taking turns", "N": "one call inside another", "P": "threads"}[m] + (", reads in the order %s" % s if s else "")
                got = line.split(",") if not line.startswith("CRASH") else None
                what = "; ".join(self.label(c["d"], c["a"][1:]) for c in g["calls"])
                if got is None or len(got) != len(g["calls"]):
                    ck.violation("calls:%s:%s:%s" % (m, s, what), "%s (%s): %s" % (what, how, line[:500])); continue
                for i, c in enumerate(g["calls"]):
                    x = bytes.fromhex(got[i]).decode("ascii", "replace")
                    y = observed(x)
                    if x.startswith("HELP"): y = dict(y, k="help", p=o[i][0]["p"] if o else [])     # its text is compared below
                    if o is not None and not matches(y, o[i], KIND) or x != alone[c["d"], tuple(c["a"])]:
                        ck.violation("calls:%s:%s:%s" % (m, s, what), "%s (%s)\n  call %d returned: %s\n  alone:           %s\n  allowed:         %s" % (
                            what, how, i + 1, show(observed(x)), show(observed(alone[c["d"], tuple(c["a"])])), "; ".join(show(y) for y in o[i]) if o else "(as alone)"))
        follow([(head[groups[g - 1]["mode"]], s, groups[g - 1], outs[g]) for g, s in sched])
        ck.cov["schedules_followed"] = ck.cov.get("schedules_followed", 0) + len(sched)
        ck.cov["schedules_nested"] = ck.cov.get("schedules_nested", 0) + sum(groups[g - 1]["mode"] == "nested" for g, _ in sched)
        for g, s in sched[::max(1, len(sched) // 6)]:
            ck.samples.append("%s: %s in the order %s" % (groups[g - 1]["mode"], "; ".join(self.label(c["d"], c["a"][1:]) for c in groups[g - 1]["calls"]), s))
        log("followed %d schedules, violations so far %d" % (len(sched), len(ck.violations)))
        free = [("P", [], dict(calls=[dict(d=d, a=list(a)) for d, a in ck.rng.choices(pool, k=16)]), None) for _ in range(1500)]
        follow(free)
        ck.cov["traces_validated_against_impl"] += len(sched) + len(free)
        ck.cov["unordered_parallel_groups"] = ck.cov.get("unordered_parallel_groups", 0) + len(free)
        log("ran %d groups of 16 calls in parallel, violations so far %d" % (len(free), len(ck.violations)))

    def helps(self, scripts, inv=(), timeout=800):
        """scripts: (definition, argv); the recorded help texts are validated line by line against spec/PalcHelp.tla"""
        ck = self.ck
        seen, uniq = set(), []
        for d, a in scripts:
            k = (d, tuple(a))
            if k not in seen: seen.add(k); uniq.append((d, list(a)))
        # ... and every definition's render_long_help, whatever its arguments are called
        NL = len(uniq)
        uniq += [(f.idx, [b"\x01render_long_help"]) for f in self.fams] if self.help_on else []
        res = replay(self.exe, [(d, [b"prog" if n < NL or n % 4 == 0 else [b"./prog", b"/usr/x y/prog", b"a/../prog/"][n % 4 - 1]] + a) for n, (d, a) in enumerate(uniq)])
        p = os.path.join(ck.wd, "defs_%s.json" % self.name)
        json.dump(self.input(KIND), open(p, "w"))
        traces, obs, texts = [], [], {}
        for n, ((d, a), line) in enumerate(zip(uniq, res)):
            o = observed(line); obs.append(o)
            k = "help" if o["k"].startswith("badhelp:") else o["k"]
            if line.startswith("HELP") and line.split("\t")[2] != "same":
                ck.violation("differs:%s" % self.label(d, a), "%s: try_into_help(), to_string() and render_long_help() do not agree" % self.label(d, a))
            traces.append(dict(d=d, a=[syms(x) for x in a] if n < NL else [], m="parse" if n < NL else "render", k=k, lines=[syms(x) for x in o.get("text", "").split("\n")]))
        tp = os.path.join(ck.wd, "traces_%s.json" % self.name)
        json.dump(traces, open(tp, "w"))
        cfg = "SPECIFICATION Spec\nINVARIANT Report\nINVARIANT Accepting\n" + "".join("INVARIANT %s\n" % i for i in inv)
        mis, acc = [], set()
        def line(ln):
            if ln.startswith('"ROW'): acc.add(unprint(ln, "ROW")[0])
            else: mis.append(ln)
        r = run_tlc("MCHelp", cfg, ck.wd, {"PALC_DEFS": p, "PALC_TRACES": tp}, timeout, on_line=line)
        ck.cov["states"] += r["distinct"]; ck.cov["transitions"] += r["states"] - r["init"]
        ck.cov["traces_validated_against_impl"] += len(uniq)
        for ln in mis:
            i, stat, pos, exh = unprint(ln, "MIS")
            d, a = uniq[i - 1]
            text = obs[i - 1].get("text", "")
            want = unsyms(exh[0]["t"]).decode("utf-8", "replace") if exh else "(end of help)"
            ck.violation("%s:%s" % (self.defs[d - 1].name, ",".join(hexs(x) for x in a)), "%s\n  %s\n  full text:\n%s" % (self.label(d, a),
                "help expected?  observed: " + show(obs[i - 1]) if stat == "kind" else "line %d does not agree; expected next: %r" % (pos, want), text))
        want = {i + 1 for i, t in enumerate(traces) if t["k"] == "help"}
        bad = {unprint(ln, "MIS")[0] for ln in mis}
        if want - bad - acc: raise ToolError("help texts neither accepted nor rejected: %s" % sorted(want - bad - acc)[:5])
        ck.cov["help_texts_accepted"] = ck.cov.get("help_texts_accepted", 0) + len(acc)
        for i in range(0, len(uniq), max(1, len(uniq) // 6)):
            ck.samples.append("%s -> %s" % (self.label(*uniq[i]), show(obs[i])))
        log("validated %d help texts (of %d calls), violations so far %d" % (len(acc), len(uniq), len(ck.violations)))

def main(args):
    if args[0] == "--setup":
        # nothing has to be prepared; make sure that the tools are there and the specification parses
        for m in sorted(os.listdir(SPEC)):
            r = subprocess.run(["java", "-cp", JAR + "/tla2tools.jar:" + JAR + "/CommunityModules-deps.jar", "tla2sany.SANY", "-error-codes", m], cwd=SPEC, capture_output=True, text=True) if m.endswith(".tla") else None
            if r is not None and r.returncode != 0: print(m, r.stdout[-1500:]); return 2
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1: tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    ck = Check(pid, tier, seed)
    try:
        return checks.CHECKS[pid](ck)
    except BuildFailed as e:
        # well-formed definitions no longer compile (or the library does not build)
        ck.violation("build:" + e.name, "the definitions of this check do not compile any more:\n" + e.err[:6000])
        return ck.finish()
    except ToolError as e:
        print("TOOL ERROR:", e); return 2
    except Exception:
        traceback.print_exc(); return 2
