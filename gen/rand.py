"""Seeded random definitions and random command lines for them.

Only well-formed definitions are produced (spec/PalcDerive.tla says which are); the command lines are
meant to be plausible, slightly wrong and occasionally absurd.  What they mean is decided by the
specification, so nothing here needs to be exact.
"""
from dsl import *

IDENTS = ["foo", "foo_bar", "bar", "baz2", "x_y_z", "alpha", "beta", "quux", "n", "file", "r#type", "r#match", "out_dir",
          "_lead", "trail_", "v2_beta", "a1b", "zed", "color", "level", "name", "jobs", "kind", "mode", "fooBar", "key9", "user_ID",
          "größe", "r#loop", "verbose", "quiet", "path", "target", "dry_run", "no_color", "include", "exclude", "e", "o", "is_9"]
LONGS = ["x", "foo", "fo", "foo-bar", "foo-b", "foo-bar-baz", "F", "FOO", "a.b", "名前", "ñ", "with space", "0", "10", "n--n", "café",
         "col:or", "q_q", "zz", "zzz", "aa", "ab", "b", "version", "no-foo", "yes", "ÿ", "e\u0301", "-"[0:0] + "o", "help-me", "hel", "x'y", 'x"y', "p[0]", "{}", "k,v",
         "verbose-logging-enabled", "verbose-logging-enabled-too", "verbose-logging-enablee", "l" * 16, "l" * 17, "l" * 32, "l" * 33, "l" * 64, "l" * 65, "l" * 130]
SHORTS = list("abcdefgijklmnopqrstuvwxyzABCDEFGHIJ0123456789@:.,+?%_/#") + ["é", "ß", "我", "😀", "ÿ", "\u00a0", "'", '"', "\\", " ", "Ω"]
ENUM_IDENTS = ["Red", "Green", "BlueGreen", "X", "X86_64", "HTTPServer", "r#Fn", "Aa", "AA", "lower", "V2", "FooBar9", "Snake_Case", "Io", "UTF8Text", "ABc", "N0Op"]
ENUM_NAMES = ["red", "Red", "RED", "", "-", "--", "-x", "0", "a b", "é", "名", "x=y", "=", "re", "redd", "on", "off", "auto", "always", "1", "-1", "t'q"]
CMD_IDENTS = ["Run", "Build", "BuildAll", "Test", "X", "Help", "AddRemote", "R2D2", "Ls", "Clean", "r#Match", "Status", "Init", "HTTPGet", "Rm", "Rmx", "B", "Zzz", "Foo_Bar", "Aa", "Ab", "Longestcommand", "Longestcommandever", "Abcdefgijklmnopqrstuvwx", "Abcdefgijklmnopqrstuvwy", "Abcdefgijklmnopqrstuvwxyz"]
RULES = [None, None, "kebab-case", "snake_case", "SCREAMING_SNAKE_CASE", "PascalCase", "camelCase", "lower", "UPPER", "verbatim"]
DOCS = ["Some help text.", "A second paragraph", "", "with  two spaces ", "  indented", "curly {braces} {0}", "quotes \"'\\", "ünïcödé 説明", "Line", "-h --help", "", "one\ntwo", "\n\nx\n", "Usage: none", "[default: 1]", "tab\there", "%s %d \\n", "{0:.4}", "\u00a0nbsp\u00a0", "Options:"]

DEF = dict(nf=(1, 5), named=.7, glob=.12, flat=.3, flat2=.3, sub=.45, depth=2, cmds=(1, 4), cons=.12, dflt=.12, vec=.25, opt=.45, optopt=.08,
           flag=.35, enum=.2, icase=.3, hy=.15, reqeq=.1, last=.12, trailing=.12, delim=.35, req=.1, excl=.04, alias=.3, salias=.25, collide=.05,
           explicit=.35, weird=.25, hide=.05, doc=.1, about=0, labout=0, after=0, subopt=.5, helpname=.04, shortonly=.25, both=.45, vname=.15, text=.3, nflat=[1, 1, 2])

class Gen:
    def __init__(self, rng, **kn):
        self.r = rng
        self.k = dict(DEF); self.k.update(kn)

    def p(self, x): return self.r.random() < (self.k[x] if isinstance(x, str) else x)

    def definition(self, name):
        self.types, self.ns, self.ne = [], 0, 0
        root = self.struct("Cli", self.k["depth"], True, set())
        d = Def(name, root, self.types)
        return d

    def enum(self, need_lower):
        r = self.r
        for _ in range(200):
            rule = r.choice([None, "kebab-case", "snake_case", "lower"] if need_lower else RULES)
            n = r.choice([1, 2, 3, 4, 7, 12, 17] if r.random() < .3 else [1, 2, 3, 4, 7])
            ids = r.sample(ENUM_IDENTS, n)
            vs = []
            for i in ids:
                nm = r.choice(ENUM_NAMES) if r.random() < .35 else None
                if nm is not None and need_lower: nm = nm.lower()
                vs.append((i, nm))
            # approximate uniqueness of the resulting names, to stay well-formed
            approx = [n if n is not None else re.sub("[_-]", "", unraw(i)).lower() for i, n in vs]
            if len({a.lower() for a in approx}) == len(approx) and len({unraw(i).lower() for i in ids}) == len(ids):
                self.ne += 1
                t = VE("E%d" % self.ne, vs, rule)
                self.types.append(t)
                return t
        raise AssertionError

    def base(self):
        r = self.r
        if self.p("enum"): return self.enum(r.random() < .6).rust
        if self.p("text"): return r.choice(["String", "OsString", "PathBuf"])
        return r.choice(["u8", "i8", "u16", "i16", "char", "bool", "Tag", "Raw", "String", "OsString", "Ver", "NonZeroU8", "NonZeroI16", "Box<OsStr>"])

    def ty(self, named):
        r = self.r
        if named and self.p("flag"): return "bool", "bool", "bool"
        if named and self.p("optopt"):
            b = self.base(); return "Option<Option<%s>>" % b, b, "optopt"
        b = self.base()
        if self.p("vec"):
            return ("Vec<%s>" % b, b, "vec") if r.random() < .6 else ("Option<Vec<%s>>" % b, b, "optvec")
        if self.p("opt"): return "Option<%s>" % b, b, "option"
        if b == "bool": b = "u8"       # a plain `bool` field would be a flag
        return b, b, "value"

    def default(self, f, base, kind, named):
        """a default that is sure to be valid"""
        r = self.r
        t = next((t for t in self.types if t.rust == base), BASE.get(base))
        if kind == "bool":
            v = r.random() < .5
            f.default_t = ("true" if v else "false" if r.random() < .5 else None, ["true" if v else "false"], "true" if v else "false")
            return
        def val():
            if t.k == "enum":
                i, n = r.choice(t.vars)
                return None if n is None or n in ("",) else n
            return {"str": r.choice(["", "dflt", "-x", "a,b", "ünï", "x{y}"]), "os": r.choice(["", "dflt", "-", "a=b"]), "int": r.choice(["0", "7", "+9", "007"]),
                    "char": r.choice("qé-"), "bool": r.choice(["true", "false"]), "tag": r.choice(["t", "-t", "x y"]), "raw": r.choice(["", "rw", "-"]), "nz": r.choice(["1", "+9", "042"]), "ver": r.choice(["v1", "v007"])}[t.k]
        if named and kind in ("value", "option") and t.k in ("int", "str", "enum", "bool") and r.random() < .4:
            if t.k in ("int", "bool", "str") and r.random() < .35:      # `default_value_t` alone: the type's own default
                f.default_t = {"int": (None, ["0"], "0"), "bool": (None, ["false"], "false"), "str": (None, [""], "")}[t.k]
            elif t.k == "int": n = r.choice([0, 1, 42, 100]); f.default_t = (str(n), [str(n)], str(n))
            elif t.k == "bool": f.default_t = ("true", ["true"], "true")
            elif t.k == "str":
                s = r.choice(["", "dt", "a b"]); f.default_t = ("%s.to_string()" % rstr(s), [s], s)
            elif t.k == "enum":
                i, n = r.choice(t.vars); f.default_t = ("%s::%s" % (base, i), [unraw(i)], "")
            return
        v = val()
        if v is None: return
        if f.icase: v = "".join(c.upper() if c.isascii() and r.random() < .4 else c for c in v)
        if f.delim:
            frs = [v]
            if t.k in ("int", "str", "os", "bool", "tag", "raw") and r.random() < .5:
                v2 = val()
                if v2 is not None: frs.append(v2)
            # every fragment after splitting has to be valid
            if any(x == "" for y in frs for x in y.split(f.delim)) and t.k not in ("str", "os", "raw"): return
            if any(f.delim in x for x in frs) and t.k not in ("str", "os", "raw", "tag"): return
            v = f.delim.join(frs)
            if t.k == "tag" and any(x == "" for x in v.split(f.delim)): return
        f.default = v

    def field(self, used, idents, positional=False, kinds=None):
        r = self.r
        ident = None
        for _ in range(40):
            c = r.choice(IDENTS)
            if unraw(c) not in idents: ident = c; break
        if ident is None: ident = "g%d" % len(idents)
        idents.add(unraw(ident))
        ty, b, kind = self.ty(not positional)
        f = F(ident, ty)
        if not positional:
            def take(kind_, pool, enc):
                for _ in range(30):
                    c = r.choice(pool)
                    if enc(c) not in used: used.add(enc(c)); return c
                return None
            def kebab(i): return re.sub("_+", "-", re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "-", unraw(i))).strip("-").lower()
            L = lambda c: "--" + c
            want_short = self.p("shortonly")
            want_both = self.p("both")
            def setlong():
                if not self.p("explicit") and L(kebab(ident)) not in used:
                    used.add(L(kebab(ident))); f.long = True
                else:
                    pool = LONGS if self.p("weird") else LONGS[:6] + [kebab(x) for x in IDENTS]
                    if self.p("helpname"): pool = ["help"]
                    f.long = take("l", pool, L)
            def setshort():
                c = unraw(ident)[0]
                if not self.p("explicit") and c not in used:
                    used.add(c); f.short = True
                else:
                    pool = SHORTS if self.p("weird") else list("abcdefgijklmnopqrstuvwxyzABCDEF12")
                    if self.p("helpname"): pool = ["h"]
                    f.short = take("s", pool, lambda c: c)
            if want_short: setshort()
            else:
                setlong()
                if want_both: setshort()
            if f.long is None and f.short is None:
                f.long = "u%d" % len(used); used.add(L(f.long))
            while self.p("alias") and len(f.alias) < 4:
                a = take("l", LONGS + [kebab(x) for x in IDENTS], L)
                if a: f.alias.append(a)
            while self.p("salias") and len(f.salias) < 3:
                a = take("s", SHORTS, lambda c: c)
                if a: f.salias.append(a)
            f.glob = self.p("glob")
            if kind == "optopt": f.require_equals = True
            elif kind != "bool":
                if self.p("reqeq"): f.require_equals = True
                elif self.p("hy"):
                    if r.random() < .5: f.hyphen = True
                    else: f.negnum = True
            elif r.random() < .03: f.require_equals = True      # a flag that can never be given
            t = next((t for t in self.types if t.rust == b), None)
            if t is not None and kind != "bool" and self.p("icase"):
                approx = [n if n is not None else ("u" if t.rule in ("SCREAMING_SNAKE_CASE", "PascalCase", "camelCase", "UPPER", "verbatim") else "l") for _, n in t.vars]
                if all(a == a.lower() for a in approx) and "u" not in [a for (i, n), a in zip(t.vars, approx) if n is None]: f.icase = True
        if kind in ("vec", "optvec") and self.p("delim"):
            f.delim = r.choice([",", ",", ":", "=", "-", "a", "é", " ", "0"] + ["E", "X", "o"] * (2 if f.icase else 0))
            if f.delim == "," and r.random() < .4: f.use_delim = True
        if self.p("vname"): f.value_name = r.choice(["FILE", "x", "A B", "", "値", "a>b", "{}"])
        if self.p("dflt"): self.default(f, b, kind, not positional)
        elif self.p("req"): f.required = True
        f.hide = self.p("hide")
        if self.p("doc"): f.doc = [r.choice(DOCS) for _ in range(r.choice([1, 1, 2, 4]))]
        return f

    def texts(self):
        """description, long description and trailing text of a command"""
        r = self.r
        return dict(about=[r.choice(DOCS) for _ in range(r.choice([1, 1, 2, 3, 5]))] if self.p("about") else [],
                    long_about=r.choice([True, "", "Long about.", "First\nSecond {line}", "  padded  ", "a\n\nb"]) if self.p("labout") else None,
                    after=r.choice(["", "After text.", "EXAMPLES:\n  prog {x}\n\n  prog --help", "\nend\n"]) if self.p("after") else None)

    def struct(self, name, depth, allow_sub, outer_used, flat_level=0, positional_ok=True, outer_idents=None):
        r = self.r
        used, idents = set(), set()
        if self.k["collide"] == 0 and outer_idents is not None: idents = outer_idents      # so that the inline twin is well-formed
        if flat_level and not self.p("collide"): used = outer_used      # flattened names differ from the container's (mostly)
        n = r.randint(*self.k["nf"])
        if r.random() < .04: n = n * 3 + 4
        fields = []
        pos = []
        for _ in range(n):
            if self.p("named") or not positional_ok: fields.append(self.field(used, idents))
            else: pos.append(self.field(used, idents, positional=True))
        # positional shapes: singles, then at most one variable-length, at most one last
        singles = [f for f in pos if f.kind()[0] not in ("vec", "optvec")]
        vecs = [f for f in pos if f.kind()[0] in ("vec", "optvec")]
        keep = list(singles)
        if vecs: keep.append(vecs[0])
        if len(vecs) > 1 or (vecs and self.p("last")):
            v = vecs[-1]
            if v is vecs[0]: keep.remove(v)
            v.last = True
            keep.append(v)
        for f in keep:
            if not f.last and f.kind()[0] in ("vec", "optvec") and self.p("trailing"): f.trailing = True
            if not f.last and f is (singles[-1] if singles else None) and not vecs and r.random() < .04: f.trailing = True
        if r.random() < .3: r.shuffle(fields)
        allf = []
        fi, pi = list(fields), list(keep)
        while fi or pi:                                   # interleave named and positional in source order
            src = fi if fi and (not pi or r.random() < len(fi) / (len(fi) + len(pi))) else pi
            allf.append(src.pop(0))
        # a `last` field may be declared anywhere relative to other positionals
        flats = []
        s = S(name, [], parser=False, **(self.texts() if flat_level == 0 or r.random() < .3 else {}))
        if self.p("flat") and depth >= 0 and flat_level < 3:
            for j in range(r.choice(self.k["nflat"])):
                self.ns += 1
                ident = "flat%d" % j if self.k["collide"] else "fl%d" % self.ns
                flats.append((ident, self.struct("A%d" % self.ns, depth if self.p("flat2") else -1, False, used, flat_level + 1, False, idents)))
        # constraints
        ids = [f.ident for f in allf]
        for f in allf:
            others = [i for i in ids if i != f.ident]
            if others and self.p("cons"): f.requires = r.sample(others, min(len(others), r.choice([1, 1, 2])))
            if others and self.p("cons"): f.conflicts = r.sample(others, min(len(others), r.choice([1, 1, 2])))
            if not flats and self.p("excl"): f.exclusive = True
        s.fields, s.flatten = allf, flats
        if allow_sub and depth > 0 and self.p("sub"):
            self.ns += 1
            n = self.ns
            ids = r.sample(CMD_IDENTS, r.randint(*self.k["cmds"]) if depth > 1 or r.random() > .08 else 12)
            e = E("Cmd%d" % n, [])
            for i in ids:
                if r.random() < .2: e.variants.append(V(i, **self.texts()))
                else:
                    self.ns += 1
                    sub = self.struct("S%d" % self.ns, depth - 1, True, set())
                    e.variants.append(V(i, r.choice(["struct", "tuple"]), sub))
            s.sub = ("command" if "command" not in idents else "cmd%d" % n, self.p("subopt"), e)
        o = s.idents()
        if r.random() < .5:
            # the source order of arguments is part of `fields`; only move flatten/subcommand entries around
            a = [f.ident for f in s.fields]
            for x in o[len(a):]: a.insert(r.randint(0, len(a)), x)
            s.order = a
            s.flatten.sort(key=lambda x: a.index(x[0]))      # flattened groups count in source order
        return s

# ----------------------------------------------------------------------------- command lines
def kebab(i): return re.sub("_+", "-", re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "-", unraw(i))).strip("-").lower()

def cmd_name(i): return kebab(re.sub(r"(?<=[A-Z])(?=[A-Z][a-z])", "-", unraw(i)))

def names_of(f):
    n = []
    if f.long is True: n.append("--" + kebab(f.ident))
    elif f.long is not None: n.append("--" + f.long)
    if f.short is True: n.append("-" + unraw(f.ident)[0])
    elif f.short is not None: n.append("-" + f.short)
    if n: n += ["--" + a for a in f.alias] + ["-" + a for a in f.salias]
    return n

JUNK = [b"", b"-", b"--", b"-h", b"--help", b"-1", b"-12", b"-1x", b"--nope", b"=", b"-=", b"--=", b"--=v", b"-\xc3\xa9", b"\xff", b"-\xff", b"--\xff",
        b"---", b"--help=x", b"-h=x", b"--hel", b"--helpp", b"-H", b"help", b"x", b"\xe6\x88", b"-\xe6\x88\x91", b"\n", b"\x00x", b"-a\xffb", b"--foo=\xff=", b"0", b"-0", "-٣".encode()]

INTV = {"u8": ["0", "7", "255", "256", "-1", "+5", "", "00000000000000000012", "x", "-0", "99999999999999999999", "0" * 70 + "9"], "i8": ["-128", "-129", "127", "128", "-5", "-0", "+0", "-", "--5", "5", "-" + "0" * 30 + "5", "-" + "123456789" * 4],
        "u16": ["65535", "65536", "1", "-1", "0x1"], "i16": ["-32768", "-32769", "32767", "12", "-12", "- 1"]}
for _t in ("u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"): INTV[_t] = [str(BASE[_t].hi), str(BASE[_t].hi + 1), str(BASE[_t].lo), str(BASE[_t].lo - 1), "+3", "-0", "x", "12"]

class Scripts:
    def __init__(self, rng, d, raw=.1, noise=1.0):
        self.r, self.d, self.raw, self.noise = rng, d, raw, noise

    def value(self, f):
        r = self.r
        kind, b = f.kind()
        t = self.d.types[b]
        def one():
            if r.random() < .05 * self.noise: return r.choice(JUNK)
            if t.k == "enum":
                if not t.vars: return b"x"
                i, n = r.choice(t.vars)
                s = n if n is not None else kebab(i) if self.noise == 0 and t.rule in (None, "kebab-case") else r.choice([kebab(i), unraw(i), unraw(i).lower(), unraw(i).upper(), kebab(i).replace("-", "_"), kebab(i).replace("-", "_").upper(),
                                                       kebab(i).replace("-", ""), unraw(i)[:1].lower() + unraw(i)[1:]])
                if f.icase and r.random() < .6: s = "".join(c.upper() if r.random() < .5 else c for c in s)
                if r.random() < .08: s = s[:-1]
                return s.encode()
            if self.noise == 0 and t.k in ("int", "bool", "char", "tag", "raw", "nz", "ver"):
                return {"int": lambda: str(r.randint(max(t.lo, -9), 99)).encode(), "bool": lambda: r.choice([b"true", b"false"]),
                        "char": lambda: r.choice([b"c", "é".encode(), b"=", "😀".encode()]), "tag": lambda: r.choice([b"v", b"tag", b"a=b"]),
                        "raw": lambda: r.choice([b"v", b"\xff\xfe", b"", b"a=b"]), "nz": lambda: str(r.randint(1, 99)).encode(), "ver": lambda: r.choice([b"v1", b"v20"])}[t.k]()
            if t.k == "nz": return r.choice([b"1", b"-1", b"0", b"+7", b"00", b"255", b"256", b"-0", b"", b"x", b"99999", b"-99999"])
            if t.k == "ver": return r.choice([b"v1", b"v", b"1", b"v12", b"", b"vx", b"v\xff"])
            if t.k == "int": return (r.choice(INTV[b]) if r.random() < .5 else str(r.randint(max(t.lo, -99), 99))).encode()
            if t.k == "bool": return r.choice([b"true", b"false", b"true", b"True", b"1", b""])
            if t.k == "char": return r.choice([b"c", "é".encode(), b"-", b"cc", b"", "😀".encode(), b"\xff", b"="])
            if t.k == "tag": return r.choice([b"v", b"tag", b"!bad", b"", b"a=b", b"\xff"])
            if t.k == "raw": return r.choice([b"v", b"\xff\xfe", b"!", b"", b"a=b"])
            if t.k == "os" and r.random() < self.raw: return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 2, 5])))
            return r.choice([b"v", b"val", b"a=b", b"", b"=", b"-x", b"x y", "é".encode(), b"-5", b"--", b"v1,v2", b"\xff" if self.noise and r.random() < .3 else b"w", b"long" * 20 if r.random() < .2 else b"u"])
        if f.delim and r.random() < .6:
            return tb(f.delim).join(one() for _ in range(r.choice([1, 2, 2, 3])))
        return one()

    def occ(self, f):
        """one occurrence of a named argument as argv elements"""
        r = self.r
        n = tb(r.choice(names_of(f)))
        kind = f.kind()[0]
        short = not n.startswith(b"--")
        if kind == "bool" and r.random() >= .03 * self.noise: return [n]
        if kind == "optopt":
            x = r.random() * (.92 if self.noise == 0 else 1)
            return [n] if x < .4 else [n + b"=" + self.value(f)] if x < .93 else [n, self.value(f)] if x < .97 else [n + b"v"]
        v = self.value(f)
        x = r.random() * (.9 if self.noise == 0 else 1)
        if f.require_equals: return [n + b"=" + v] if x < .9 else [n, v] if x < .92 else [n + v] if x < .96 else [n]
        if short: return [n, v] if x < .35 else [n + b"=" + v] if x < .6 else [n + v] if x < .95 else [n]
        return [n, v] if x < .5 else [n + b"=" + v] if x < .97 else [n]

    def line(self, maxlen=9):
        r = self.r
        out = []
        root = self.d.root
        def flat(s):
            fs = list(s.fields)
            for _, c in s.flatten: fs += flat(c)
            return fs
        s, glob, outer = root, [], []
        while True:
            fs = flat(s)
            named = [f for f in fs if names_of(f)]
            posf = [f for f in s.fields if not names_of(f)]
            items = []
            for f in named:
                if self.noise == 0 and any(i in [g.ident for _, g in items] for i in f.conflicts): continue
                need = (f.required or f.kind()[0] == "value") and f.default is None and f.default_t is None
                if need and r.random() >= .1 * self.noise: items.append(("n", f))
                elif r.random() < .3: items.append(("n", f))
                if f.kind()[0] in ("vec", "optvec") and r.random() < .3: items.append(("n", f))
                elif r.random() < .03 * self.noise: items.append(("n", f))
            for f in glob:
                if r.random() < .35: items.append(("n", f))
            if outer and r.random() < .04 * self.noise: items.append(("n", r.choice(outer)))
            for f in posf:
                need = f.kind()[0] == "value" or f.required
                vec = f.kind()[0] in ("vec", "optvec")
                if f.last or f.trailing: continue
                if need and r.random() >= .1 * self.noise or r.random() < .5: items.append(("p", f))
                if vec:
                    for _ in range(r.choice([0, 0, 1, 2])): items.append(("p", f))
            r.shuffle(items)
            # keep positional values in field order so that they convert
            ps = iter(sorted((x for x in items if x[0] == "p"), key=lambda x: posf.index(x[1])))
            items = [next(ps) if x[0] == "p" else x for x in items]
            for k, f in items:
                out += self.occ(f) if k == "n" else [self.value(f)]
                if r.random() < .02 * self.noise: out.append(r.choice(JUNK))
            tail = [f for f in posf if f.last or f.trailing]
            if s.sub and s.sub[2].variants and r.random() < (.85 if self.noise or s.sub[1] else 1):
                v = r.choice(s.sub[2].variants)
                out.append(tb(kebab(re.sub(r"(?<=[A-Z])(?=[A-Z][a-z])", "-", unraw(v.ident)))))
                glob = glob + [f for f in named if f.glob]
                outer = outer + [f for f in named if not f.glob]
                s = v.s
                if r.random() < .03 * self.noise: break
                continue
            if tail and r.random() < .6:
                f = r.choice(tail)
                if f.last or r.random() < .3: out.append(b"--")
                for _ in range(r.choice([0, 1, 2, 3])): out.append(r.choice(JUNK) if r.random() < .4 else self.value(f))
            elif r.random() < .1:
                out.append(b"--")
                for f in posf[:2]:
                    if r.random() < .7: out.append(self.value(f))
                if r.random() < .2: out.append(r.choice(JUNK))
            break
        # bundles: merge neighbouring short elements
        if r.random() < .5:
            i = 0
            while i + 1 < len(out):
                a, b = out[i], out[i + 1]
                if re.fullmatch(rb"-[^-=].*", a, re.S) and len(a.decode("utf-8", "replace")) <= 3 and re.match(rb"-[^-=]", b) and r.random() < .6:
                    out[i:i + 2] = [a + b[1:]]
                else: i += 1
        # mutations
        x = r.random() / (self.noise or .001)
        if out and x < .06: out.pop(r.randrange(len(out)))
        elif out and x < .12: out.insert(r.randint(0, len(out)), r.choice(out))
        elif len(out) > 1 and x < .2:
            i, j = r.sample(range(len(out)), 2); out[i], out[j] = out[j], out[i]
        elif x < .26: out.insert(r.randint(0, len(out)), r.choice(JUNK))
        elif out and x < .31:
            i = r.randrange(len(out)); e = out[i]
            y = r.random()
            out[i] = (e[:-1] if y < .15 else e.replace(b"-", b"_") if y < .17 else re.sub(rb"[\x80-\xff]+", b"\xff", e) if y < .2 else e + b"x" if y < .35 else e.swapcase() if y < .5 else e + b"=" if y < .6 else b"-" + e if y < .7 else
                      e + b"\xff" if y < .8 else e.replace(b"=", b"") if y < .9 else e[1:])
        elif x < .33: out.insert(r.randint(0, len(out)), r.choice([b"-h", b"--help"]))
        return out[:maxlen + 6]

def alphabet(rng, d, n=10):
    """tokens for an exhaustive scope over a random definition"""
    sc = Scripts(rng, d)
    toks = []
    def add(x):
        if x not in toks: toks.append(x)
    def flat(s):
        fs = list(s.fields)
        for _, c in s.flatten: fs += flat(c)
        return fs
    structs, cmds = [], []
    def visit(s, dep):
        structs.append((s, dep))
        if s.sub:
            for v in s.sub[2].variants:
                cmds.append((kebab(re.sub(r"(?<=[A-Z])(?=[A-Z][a-z])", "-", unraw(v.ident))), dep)); visit(v.s, dep + 1)
    visit(d.root, 0)
    for c, dep in cmds:
        if rng.random() < (.9 if dep == 0 else .4): add(tb(c))
    pool = [(f, dep) for s, dep in structs for f in flat(s)]
    rng.shuffle(pool); pool.sort(key=lambda x: x[1])
    for f, dep in pool:
        if len(toks) >= n - 2: break
        if names_of(f):
            for x in sc.occ(f)[:1]: add(x)
        else: add(sc.value(f))
    add(b"--") if rng.random() < .5 else add(b"v")
    while len(toks) < n: add(rng.choice(JUNK + [sc.value(f) for f, _ in pool[:3]]) if rng.random() < .7 else tb("w%d" % len(toks)))
    return toks[:n]
