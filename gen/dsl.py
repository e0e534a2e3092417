"""Definitions of command line interfaces as data.

One definition is emitted twice: as JSON for the TLA+ specification (source level: identifiers and
attributes) and as Rust source using palc's derive macros.  Nothing here says what a definition means;
that is the specification's business.
"""
import re
from zlib import crc32

# ----------------------------------------------------------------------------- text <-> symbols
def sym1(ch):
    o = ord(ch)
    if 0x20 <= o <= 0x7E:
        return ch
    if 0xDC80 <= o <= 0xDCFF:
        return "x%02X" % (o - 0xDC00)
    return "u%04X" % o

def syms(b):
    """bytes (or str) -> list of symbols, see spec/Symbols.tla"""
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    # a long run of `z` is one opaque symbol, so that very long elements stay small in the specification
    if len(b) >= 200 and b"z" * 200 in b:
        out = []
        for part in re.split(b"(z{200,})", b):
            out += ["L%d" % len(part)] if len(part) >= 200 and not part.strip(b"z") else syms(part)
        return out
    return [sym1(c) for c in b.decode("utf-8", "surrogateescape")]

def unsyms(ss):
    out = bytearray()
    for s in ss:
        if len(s) == 1:
            out += s.encode()
        elif s[0] == "L":
            out += b"z" * int(s[1:])
        elif s[0] == "u":
            out += chr(int(s[1:], 16)).encode("utf-8")
        else:
            out.append(int(s[1:], 16))
    return bytes(out)

def tb(t):
    return t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")

# ----------------------------------------------------------------------------- value types
class Ty:
    def __init__(self, rust, k, lo=0, hi=0, rule="", vars=(), decl=""):
        self.rust, self.k, self.lo, self.hi, self.rule, self.vars, self.decl = rust, k, lo, hi, rule, list(vars), decl

    def json(self):
        return dict(k=self.k, lo=syms(str(-self.lo)) if self.lo else [], hi=syms(str(self.hi)), rule=self.rule or "kebab-case",
                    vars=[dict(id=syms(unraw(i)), nm=dict(m="exp", v=syms(n)) if n is not None else dict(m="no", v=[]))
                          for i, n in self.vars])

def unraw(i):
    return i[2:] if i.startswith("r#") else i

BASE = {}
for _r, _k, _lo, _hi in [("String", "str", 0, 0), ("OsString", "os", 0, 0), ("PathBuf", "os", 0, 0),
                         ("u8", "int", 0, 255), ("i8", "int", -128, 127), ("u16", "int", 0, 65535),
                         ("i16", "int", -32768, 32767), ("u32", "int", 0, 2**32 - 1), ("i32", "int", -2**31, 2**31 - 1),
                         ("u64", "int", 0, 2**64 - 1), ("i64", "int", -2**63, 2**63 - 1), ("usize", "int", 0, 2**64 - 1),
                         ("isize", "int", -2**63, 2**63 - 1), ("u128", "int", 0, 2**128 - 1), ("i128", "int", -2**127, 2**127 - 1), ("char", "char", 0, 0), ("bool", "bool", 0, 0),
                         ("Tag", "tag", 0, 0), ("Raw", "raw", 0, 0), ("Ver", "ver", 0, 0), ("LStr", "str", 0, 0), ("LOs", "os", 0, 0), ("Box<OsStr>", "os", 0, 0), ("NonZeroU8", "nz", 0, 255), ("NonZeroI16", "nz", -32768, 32767)]:
    BASE[_r] = Ty(_r, _k, _lo, _hi)

def VE(name, variants, rule=None, extra=""):
    """A derive(ValueEnum) enum. variants: 'Ident' or ('Ident', 'explicit name')"""
    vs = [(v, None) if isinstance(v, str) else v for v in variants]
    t = Ty(name, "enum", rule=rule, vars=vs)
    t.derive_extra = extra
    return t

# ----------------------------------------------------------------------------- fields
NO = dict(m="no", v=[])

class F:
    """One argument field.  ty: Rust type text such as 'Option<u8>'."""
    def __init__(self, ident, ty, long=None, short=None, alias=(), salias=(), value_name=None,
                 require_equals=False, glob=False, hyphen=False, negnum=False, icase=False,
                 trailing=False, last=False, default=None, default_t=None, delim=None, required=False,
                 exclusive=False, requires=(), conflicts=(), hide=False, doc=(), raw_attrs=(), use_delim=False):
        self.__dict__.update(locals()); del self.__dict__["self"]
        for x in ("alias", "salias", "requires", "conflicts"):
            v = getattr(self, x)
            setattr(self, x, [v] if isinstance(v, str) else list(v))
        self.doc = [doc] if isinstance(doc, str) else list(doc)
        if use_delim: self.delim = ","

    def kind(self):
        t = self.ty.replace(" ", "")
        m = re.fullmatch(r"Option<Option<(.*)>>", t)
        if m: return "optopt", m[1]
        m = re.fullmatch(r"Option<Vec<(.*)>>", t)
        if m: return "optvec", m[1]
        m = re.fullmatch(r"Option<(.*)>", t)
        if m: return "option", m[1]
        m = re.fullmatch(r"Vec<(.*)>", t)
        if m: return "vec", m[1]
        if t == "bool": return "bool", "bool"
        return "value", t

    def json(self, types, index):
        kind, base = self.kind()
        ov = lambda x: NO if x is None else dict(m="inh", v=[]) if x is True else dict(m="exp", v=syms(x))
        d = dict(m="none", v=[], val=dict(p="U", v=[]), disp=[])
        if self.default is not None:
            d = dict(m="str", v=syms(self.default), val=dict(p="U", v=[]), disp=syms(self.default))
        elif self.default_t is not None:
            _, vals, disp = self.default_t
            d = dict(m="expr", v=[], val=dict(p="V", v=[syms(x) for x in vals]), disp=syms(disp))
        if self.noticed(): d["lg"] = True
        ty = types[base].json()
        if getattr(self, "lg", False) and base in ("LStr", "LOs", "Tag", "Raw", "Ver"): ty["lg"] = True
        return dict(id=syms(unraw(self.ident)), kind=kind, ty=ty,
                    long=ov(self.long), short=ov(self.short) if not (isinstance(self.short, str)) else dict(m="exp", v=syms(self.short)),
                    alias=[syms(a) for a in self.alias], salias=[syms(a) for a in self.salias],
                    vname=NO if self.value_name is None else dict(m="exp", v=syms(self.value_name)),
                    reqeq=self.require_equals, **{"global": self.glob},
                    hy="any" if self.hyphen else "num" if self.negnum else "none",
                    icase=self.icase, last=self.last, trailing=self.trailing, required=self.required,
                    excl=self.exclusive, requires=[index[r] for r in self.requires], confl=[index[c] for c in self.conflicts],
                    dflt=d, delim=syms(self.delim) if self.delim else [], hide=self.hide, doc=[syms(x) for x in self.doc])

    def noticed(self):
        """is the evaluation of the default expression noticed (harness: `effects`)?"""
        return bool(getattr(self, "lg", False) and self.default is None and self.default_t is not None and self.default_t[0] is not None)

    # --- Rust
    def attrs(self):
        a = []
        if self.long is True: a.append("long")
        elif self.long is not None: a.append("long = %s" % rstr(self.long))
        if self.short is True: a.append("short")
        elif self.short is not None: a.append("short = %s" % rchar(self.short))
        h = crc32(("%s:%s" % (self.ident, self.ty)).encode())
        a += spellings("alias", "aliases", [rstr(x) for x in self.alias], h)
        a += spellings("short_alias", "short_aliases", [rchar(x) for x in self.salias], h >> 3)
        if self.value_name is not None: a.append("value_name = %s" % rstr(self.value_name))
        for x, n in [("require_equals",) * 2, ("glob", "global"), ("hyphen", "allow_hyphen_values"), ("negnum", "allow_negative_numbers"),
                     ("icase", "ignore_case"), ("trailing", "trailing_var_arg"), ("last", "last"), ("required", "required"),
                     ("exclusive", "exclusive"), ("hide", "hide")]:
            if getattr(self, x): a.append("%s = %s" % (n, hole("literal", "true")))
        if self.default is not None: a.append("default_value = %s" % rstr(self.default))
        if self.default_t is not None:
            a.append("default_value_t" if self.default_t[0] is None else "default_value_t = %s" % (
                "dflt(%s, %s%s)" % (rstr(unraw(self.ident)), self.default_t[0], ".into()" if "LStr" in self.ty else "") if self.noticed() else self.default_t[0]))
        if getattr(self, "default_both", None): a.append("default_value_t = %s" % self.default_both)
        if self.use_delim: a.append("use_value_delimiter = true")
        elif self.delim: a.append("value_delimiter = %s" % rchar(self.delim))
        for r in self.requires: a.append("requires = %s" % rstr(r))
        a += spellings("conflicts_with", "conflicts_with_all", [rstr(x) for x in self.conflicts], h >> 6, one_array=False)
        a += list(self.raw_attrs)
        return a

    def rust(self, ind):
        out = ""
        for x in self.doc: out += "%s#[doc = %s]\n" % (ind, rstr(x))
        a = self.attrs()
        # one list of attributes, or the same attributes spread over two lists
        h = crc32(("%s:%d" % (self.ident, len(a))).encode())
        k = 1 + h // 4 % (len(a) - 1) if len(a) > 1 and h % 4 == 0 else len(a)
        for x in (a[:k], a[k:]):
            # attributes may be conditional, and others may stand between them
            if x: out += "%s#[%s]\n" % (ind, ("cfg_attr(all(), arg(%s))" if h >> 8 & 7 == 1 else "arg(%s)") % ", ".join(x))
            if h >> 12 & 15 == 1: out += ind + "#[doc(hidden)]\n"
            if h >> 12 & 15 == 2: out += ind + "#[allow(unused)]\n"
        if h >> 16 & 31 == 1: out = "%s#[cfg(any())] #[arg(long)] gone_%s: NoSuchType,\n" % (ind, unraw(self.ident)) + out
        return out + "%s%s: %s,\n" % (ind, hole("ident", self.ident), tyhole(self.ty))

def spellings(one, many, vals, h, one_array=True):
    """The attributes which list the values `vals`: every way to split them over the singular and the plural attribute is
    one and the same definition, so vary it (deterministically)."""
    n = len(vals)
    if n == 0: return []
    if n == 1: return ["%s = %s" % (one, vals[0]) if h % 3 else "%s = [%s]" % (many, vals[0])]
    arr = lambda vs: "%s = [%s]" % (many, ", ".join(vs))
    k = h % 6
    if k == 0: return [arr(vals)]
    if k == 1: return ["%s = %s" % (one, v) for v in vals]
    if k == 2: return ["%s = %s" % (one, vals[0]), arr(vals[1:])]
    if k == 3: return [arr(vals[:-1]), "%s = %s" % (one, vals[-1])]
    if k == 4: return [arr(vals[:1]), arr(vals[1:])]
    return ["%s = %s" % (one, vals[0])] + [arr([v]) for v in vals[1:]]

HOLES = None    # while the text of a macro is written: [(fragment, text)]

def hole(frag, text):
    """Part of a definition: written out or, in a macro, passed as an argument to it - one and the same definition."""
    if HOLES is None or crc32(("%s:%d:%s" % (frag, len(HOLES), text)).encode()) % 4 == 0: return text
    HOLES.append((frag, text))
    return "$p%d" % (len(HOLES) - 1)

def tyhole(ty):
    m = re.fullmatch(r"(Option|Vec)<(.*)>", ty)
    if m and HOLES is not None and crc32(("%d:%s" % (len(HOLES), ty)).encode()) % 3 == 0: return "%s<%s>" % (m[1], tyhole(m[2]))
    return hole("ty", ty)

def via_macro(name, on, f):
    """the items f() writes, or a macro that produces them (perhaps forwarded by another macro)"""
    global HOLES
    if not on: return f()
    HOLES = []
    try: text, hs = f(), HOLES
    finally: HOLES = None
    pat = ", ".join("$p%d:%s" % (i, h[0]) for i, h in enumerate(hs))
    out = "macro_rules! mk_%s { (%s) => {\n%s} }\n" % (name, pat, text)
    call = "mk_%s" % name
    if crc32(text.encode()) % 2:
        out += "macro_rules! fw_%s { (%s) => { mk_%s!(%s); } }\n" % (name, pat, name, ", ".join("$p%d" % i for i in range(len(hs))))
        call = "fw_%s" % name
    return out + "%s!(%s);\n" % (call, ", ".join(h[1] for h in hs))

def rstr(s):
    return hole("literal", rstr_(s))

def rchar(c):
    return hole("literal", rchar_(c))

def rstr_(s):
    b = s if isinstance(s, str) else s.decode()
    out = '"'
    for c in b:
        if c in '"\\': out += "\\" + c
        elif 0x20 <= ord(c) < 0x7F: out += c
        else: out += "\\u{%x}" % ord(c)
    return out + '"'

def rchar_(c):
    if c in "'\\": return "'\\%s'" % c
    if 0x20 <= ord(c) < 0x7F: return "'%s'" % c
    return "'\\u{%x}'" % ord(c)

# ----------------------------------------------------------------------------- structs, subcommands
class S:
    """A struct deriving Parser/Args."""
    def __init__(self, name, fields=(), flatten=(), sub=None, about=(), long_about=None, after=None, order=None, raw_attrs=(), parser=False):
        self.name, self.fields, self.flatten, self.sub = name, list(fields), list(flatten), sub
        self.about = [about] if isinstance(about, str) else list(about)
        self.long_about, self.after, self.raw_attrs = long_about, after, list(raw_attrs)
        # order: optional list of idents giving the source order of all fields (args, flattens, subcommand)
        self.order, self.parser = order, parser

    def idents(self):
        return [f.ident for f in self.fields] + [i for i, _ in self.flatten] + ([self.sub[0]] if self.sub else [])

    def body(self, ind):
        parts = {f.ident: f.rust(ind) for f in self.fields}
        for i, s in self.flatten:
            parts[i] = "%s#[command(flatten)]\n%s%s: %s,\n" % (ind, ind, hole("ident", i), hole("ty", s.name))
        if self.sub:
            i, opt, e = self.sub
            parts[i] = "%s#[command(subcommand)]\n%s%s: %s,\n" % (ind, ind, hole("ident", i), tyhole("Option<%s>" % e.name if opt else e.name))
        return "".join(parts[i] for i in (self.order or self.idents()))

    def cmd_attrs(self, ind=""):
        out = "".join("%s#[doc = %s]\n" % (ind, rstr(x)) for x in self.about)
        a = list(self.raw_attrs)
        if self.long_about is True: a.append("long_about")
        elif self.long_about is not None: a.append("long_about = %s" % rstr(self.long_about))
        if self.after is not None: a.append("after_long_help = %s" % rstr(self.after))
        h = crc32(("%s:%s" % (self.name, a)).encode())
        if a: out += "%s#[%s]\n" % (ind, ("cfg_attr(all(), command(%s))" if h & 7 == 1 else "command(%s)") % ", ".join(a))
        if h >> 4 & 7 == 1: out += ind + "#[doc(hidden)]\n"
        if h >> 4 & 7 == 2: out += ind + "#[allow(non_snake_case)]\n"
        return out

    def dump(self, acc):
        """Rust statements writing this struct's fields; acc(ident) -> expression of type &FieldTy"""
        o = 'o__.push_str("{\\"f\\":[");'
        for n, f in enumerate(self.fields):
            if n: o += "o__.push(',');"
            o += "d_%s(o__, %s);" % (f.kind()[0], acc(f.ident))
        o += 'o__.push_str("],\\"fl\\":[");'
        for n, (i, s) in enumerate(self.flatten):
            if n: o += "o__.push(',');"
            o += "Dump::dump(%s, o__);" % acc(i)
        o += 'o__.push_str("],\\"sub\\":[");'
        if self.sub:
            o += ("if let Some(s) = %s { Dump::dump(s, o__); }" if self.sub[1] else "Dump::dump(%s, o__);") % acc(self.sub[0])
        return o + 'o__.push_str("]}");'

class V:
    """A subcommand variant. kind: unit | struct | tuple"""
    def __init__(self, ident, kind="unit", s=None, about=(), long_about=None, after=None):
        self.ident, self.kind = ident, kind
        if s is None: s = S(ident, about=about, long_about=long_about, after=after)
        self.s = s

class E:
    """derive(Subcommand) enum"""
    def __init__(self, name, variants):
        self.name, self.variants = name, variants

class Def:
    def __init__(self, name, root, types=(), note=""):
        self.name, self.root, self.note = name, root, note
        self.types = dict(BASE)
        self.own = list(types)
        for t in types: self.types[t.rust] = t
        self.twin = None
        self.inline_of = None

    # -- JSON nodes: one per distinct struct object
    def nodes(self):
        order, idx = [], {}
        def visit(s):
            if id(s) in idx: return
            idx[id(s)] = len(order) + 1
            order.append(s)
            for _, c in s.flatten: visit(c)
            if s.sub:
                for v in s.sub[2].variants: visit(v.s)
        visit(self.root)
        out = []
        for s in order:
            fi = {f.ident: n + 1 for n, f in enumerate(s.fields)}
            out.append(dict(fields=[f.json(self.types, fi) for f in s.fields],
                            flats=[idx[id(c)] for _, c in s.flatten],
                            sub=dict(has=s.sub is not None, opt=bool(s.sub and s.sub[1]),
                                     cmds=[dict(id=syms(unraw(v.ident)), node=idx[id(v.s)]) for v in s.sub[2].variants] if s.sub else []),
                            about=[syms(x) for x in s.about],
                            labout=dict(m="no", v=[]) if s.long_about is None else dict(m="inh", v=[]) if s.long_about is True else dict(m="exp", v=syms(s.long_about)),
                            after=dict(m="no", v=[]) if s.after is None else dict(m="exp", v=syms(s.after))))
        return out

    def json(self):
        n = self.inline_nodes() if self.inline_of else self.nodes()
        return dict(name=self.name, root=1, nodes=n, twin=0)

    def inline_nodes(self):
        nodes = self.inline_of.nodes()
        def structs(n): return [n] + [x for c in nodes[n - 1]["flats"] for x in structs(c)]
        out = []
        for n in range(1, len(nodes) + 1):
            nd = dict(nodes[n - 1]); fs = []
            for s in structs(n):
                off = len(fs)
                for f in nodes[s - 1]["fields"]:
                    g = dict(f); g["requires"] = [x + off for x in f["requires"]]; g["confl"] = [x + off for x in f["confl"]]
                    fs.append(g)
            nd["fields"] = fs; nd["flats"] = []
            out.append(nd)
        return out

    def make_twin(self):
        """The inline twin: same commands, no flattening (see Palc C09)."""
        memo_s, memo_e = {}, {}
        import copy
        def allf(s):
            out = list(s.fields)
            for _, c in s.flatten: out += allf(c)
            return out
        def go(s):
            if id(s) in memo_s: return memo_s[id(s)]
            t = copy.copy(s); memo_s[id(s)] = t
            t.fields, t.flatten, t.order = allf(s), [], None
            if s.sub:
                e = s.sub[2]
                if id(e) not in memo_e:
                    e2 = E(e.name, [])
                    memo_e[id(e)] = e2
                    for v in e.variants:
                        v2 = copy.copy(v); v2.s = go(v.s); e2.variants.append(v2)
                t.sub = (s.sub[0], s.sub[1], memo_e[id(e)])
            return t
        d = Def(self.name + "_inl", go(self.root), self.own)
        d.inline_of = self
        self.twin = d
        return d

    # -- Rust module
    def rust(self, mod):
        done, out = set(), []
        mac = getattr(self, "macro", False)
        for t in self.own:
            if t.k != "enum": out.append(t.decl); continue
            def enum():
                vs = ""
                for i, n in t.vars:
                    vs += ("#[value(name = %s)] " % rstr(n) if n is not None else "") + hole("ident", i) + ", "
                return "#[derive(Clone, Copy, palc::ValueEnum)]\n%spub enum %s { %s }\n" % ("#[value(rename_all = %s)]\n" % rstr(t.rule) if t.rule else "", t.rust, vs)
            out.append(via_macro(t.rust, mac, enum))
            if t.vars:
                out.append("impl Val for %s { fn b(&self) -> Vec<u8> { (match *self { %s }).as_bytes().to_vec() } }\n" %
                       (t.rust, " ".join("%s::%s => %s," % (t.rust, i, rstr(unraw(i))) for i, _ in t.vars)))
            else:
                out.append("impl Val for %s { fn b(&self) -> Vec<u8> { match *self {} } }\n" % t.rust)
            out.append(t.derive_extra)
            if not t.derive_extra and crc32(t.rust.encode()) % 3:
                # conversions and a display that must not be preferred over the derived ones
                out.append("impl<'a> TryFrom<&'a OsStr> for %s { type Error = String; fn try_from(_: &'a OsStr) -> Result<Self, String> { Err(\"wrong conversion\".into()) } }\n"
                           "impl std::str::FromStr for %s { type Err = &'static str; fn from_str(_: &str) -> Result<Self, &'static str> { Err(\"wrong conversion\") } }\n"
                           "impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"wrong display\") } }\n" % ((t.rust,) * 3))
        def estruct(s, root):
            if id(s) in done: return
            done.add(id(s))
            for _, c in s.flatten: estruct(c, False)
            if s.sub: eenum(s.sub[2])
            out.append(via_macro(s.name, mac, lambda: "#[derive(palc::%s)]\n%spub struct %s {\n%s}\n" % ("Parser" if root or s.parser else "Args", s.cmd_attrs(), hole("ident", s.name), s.body("    "))))
            out.append("impl Dump for %s { fn dump(&self, o__: &mut String) { %s } }\n" % (s.name, s.dump(lambda i: "&self.%s" % i)))
        def eenum(e):
            if id(e) in done: return
            done.add(id(e))
            dump = ""
            for v in e.variants:
                if v.kind == "tuple": estruct(v.s, False)
                elif v.kind == "struct":
                    for _, c in v.s.flatten: estruct(c, False)
                    if v.s.sub: eenum(v.s.sub[2])
            def body():
                out = ""
                for v in e.variants:
                    if v.kind == "unit": out += "%s    %s,\n" % (v.s.cmd_attrs("    "), hole("ident", v.ident))
                    elif v.kind == "tuple": out += "    %s(%s),\n" % (hole("ident", v.ident), hole("ty", v.s.name))
                    else: out += "%s    %s {\n%s    },\n" % (v.s.cmd_attrs("    "), hole("ident", v.ident), v.s.body("        "))
                return out
            for v in e.variants:
                vn = hexs(unraw(v.ident).encode())
                if v.kind == "unit":
                    dump += '%s::%s => o__.push_str("[\\"%s\\",{\\"f\\":[],\\"fl\\":[],\\"sub\\":[]}]"),' % (e.name, v.ident, vn)
                elif v.kind == "tuple":
                    dump += '%s::%s(x) => { o__.push_str("[\\"%s\\","); x.dump(o__); o__.push(\']\'); }' % (e.name, v.ident, vn)
                else:
                    ids = v.s.idents()
                    dump += '%s::%s { %s } => { o__.push_str("[\\"%s\\","); %s o__.push(\']\'); }' % (
                        e.name, v.ident, ", ".join(ids), vn, v.s.dump(lambda i: i))
            out.append(via_macro(e.name, mac, lambda: "#[derive(palc::Subcommand)]\npub enum %s {\n%s}\n" % (e.name, body())))
            out.append("impl Dump for %s { fn dump(&self, o__: &mut String) { let _ = &o__; match self { %s } } }\n" % (e.name, dump) if e.variants else
                       "impl Dump for %s { fn dump(&self, _o: &mut String) { match *self {} } }\n" % e.name)
        estruct(self.root, True)
        out += getattr(self, "items", [])
        return "pub mod %s {\nuse super::support::*;\n%spub type Root = %s;\n}\n" % (mod, "".join(out), self.root.name)

def hexs(b): return b.hex()
