"""Which hand-made definitions and argv scopes each property's check explores.

A scope is an alphabet of argv elements and a length: TLC explores every argv over the alphabet up to
that length (after an optional fixed prefix), and every one of them is replayed on the real parser.
Definitions are chosen to be unusual where ordinary use would be ordinary: many names, names that are
prefixes of each other, multi-byte names, many fields, deep nesting, colliding names.
"""
from dsl import *
import copy, itertools, random, re

class Scope:
    def __init__(self, alpha, n, prefix=(), tail=None):
        seen = []
        for x in alpha:
            if tb(x) not in seen: seen.append(tb(x))
        self.alpha, self.n, self.prefix = seen, n, [tb(x) for x in prefix]
        self.tail = [tb(x) for x in (tail if tail is not None else alpha[:2])]

class Fam:
    """A definition with its scopes; `twin`: also explore the inline twin."""
    def __init__(self, d, scopes=(), twin=False):
        self.d, self.scopes, self.twin = d, list(scopes), twin

def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n): yield b"".join(tb(x) for x in t)

def near(n):
    """Texts that are easily confused with the name `n`, none of them being `n`."""
    import unicodedata
    b = tb(n)
    s = b.decode("utf-8", "surrogateescape")
    out = [s.replace("-", "_"), s.replace("_", "-"), s.replace("-", ""), s.replace("_", ""), s.replace("-", "--"), s.replace("-", " "), s.replace("-", "."), s.upper(), s.lower(),
           s.swapcase(), s.title(), s.capitalize(), s.casefold(), s[:-1], s[1:], s[:-2], s[:max(1, len(s) // 2)], s + "x", "x" + s, s + s[-1:], s + s, s + " ", " " + s, s + "\n", s + "\0", s + "-",
           "-" + s, "no-" + s, s + "s", s[::-1], s[1:2] + s[:1] + s[2:], unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s), unicodedata.normalize("NFKC", s), s.split("-")[0], s.split("-")[-1],
           s[:-1] + chr(min(ord(s[-1]) + 1, 0x10FFFF)) if s and not "\ud7ff" <= s[-1] <= "\ue000" else "", s.replace("k", "\u212a").replace("s", "\u017f"),
           s.replace("\ufffd", "?"), s.replace("i", "\u0131"), "'%s'" % s, '"%s"' % s, s + "\u200d", "\ufeff" + s]
    out = [tb(x) for x in out]
    out += [b[:-1], b + b"\xff", b"\xff" + b, tb(s.replace("\ufffd", "\udcff")), tb(s.replace("\ufffd", "\udcf0\udc9f\udc98")), tb("".join(c if ord(c) < 128 else "\udcff" for c in s)),
            tb("".join(c if ord(c) < 128 else "\ufffd" for c in s)), tb("".join(c if ord(c) < 128 else "?" for c in s)), b"\xc0\xad".join(b.split(b"-")), bytes([b[0] ^ 32]) + b[1:] if b else b]
    return [x for x in dict.fromkeys(out) if x != b]

NEARNAMES = ["dry-run", "dry_runs", "verbose", "Version", "a\ufffdb", "\ufffd", "k8s-kind", "straße", "x--y", "été", "Ünï-Cödé", "日本-語", "i18n", "no-color", "lead", "trail-", "a.b", "İx", "file"]

OPT = "Option<String>"

def all_fields(s):
    return list(s.fields) + [f for _, g in s.flatten for f in all_fields(g)]

def structs_of(s):
    return [s] + [x for _, g in s.flatten for x in structs_of(g)] + ([x for v in s.sub[2].variants for x in structs_of(v.s)] if s.sub else [])

# ---------------------------------------------------------------------------------------------- sizes
# Nothing in the contract depends on how long a name is or how many things a definition holds, so every
# property is also explored well past the sizes anybody would test by hand.
LENS = [1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
STEM = ("abcdefgi-jklmnopq-rstuvwxy-" * 12)

def stem_names(lens):
    """names that share all but their last character, at many lengths"""
    out = []
    for n in lens:
        b = STEM[:n - 1]
        out += [b + "0", b + "1"] if n > 1 else ["0"]
    return out

def c01_sizes(tier):
    out = []
    ns = stem_names(LENS)
    fs = []
    for i, n in enumerate(ns):
        fs.append(F("f%d" % i, ["bool", "Option<u8>", "Vec<u8>"][i % 3], **(dict(long=n) if i % 4 < 2 else dict(long="own%d" % i, alias=[n]) if i % 4 == 2 else dict(short=chr(0x500 + i), alias=[n, n + "-also"]))))
    toks = []
    for n in ns: toks += ["--" + n, "--" + n + "=1", "--" + n[:-1], "--" + n + "0", "--" + n[:-1] + "2", "--" + n[:-1] + "2=1", "--" + n + "-also"]
    out.append(Fam(Def("longnames", S("Cli", fs)), [Scope(toks, 1), Scope(["--" + n + "=1" for n in ns[::3]] + ["--" + n for n in ns[2::9]] + ["1"], 2)]))
    # many spellings of one argument
    al = ["al%d" % i for i in range(70)]
    sa = [chr(0x600 + i) for i in range(70)]
    out.append(Fam(Def("manyalias", S("Cli", [F("one", "Vec<u8>", long="one", alias=al[::2], salias=sa[::2]), F("two", "Vec<u8>", short="2", alias=al[1::2], salias=sa[1::2])])),
                   [Scope(["--%s=%d" % (a, i) for i, a in enumerate(al)] + ["-%s%d" % (a, i) for i, a in enumerate(sa)] + ["--al70=1", "--al=1", "-\u06461"], 1), Scope(["--al68=1", "--al69=2", "-%s3" % sa[69], "-%s" % sa[68], "4", "--one=5", "-2=6"], 3)]))
    return out

def c03_sizes(tier):
    d = Def("hylong", S("Cli", [F("n", "Vec<OsString>", long="num", short="n", negnum=True), F("a", "Vec<OsString>", long="any", short="a", hyphen=True), F("t", "Vec<OsString>", long="txt", short="t"), F("o", "Option<Option<OsString>>", long="opt", short="o", require_equals=True), F("p", "Vec<OsString>")]))
    digs = []
    for k in (1, 2, 3, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 38, 39, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 300):
        z = ("1234567890" * 30)[:k]
        digs += ["-" + z, "-" + z[:-1] + "x", "-x" + z[1:], "-" + z[:k // 2] + "-" + z[k // 2:]]
    lng = ["v" * 300, "-" + "v" * 300, "--" + "v" * 300, "--" + "v" * 64 + "=1", "-" * 40]
    vals = digs + lng
    return [Fam(d, [Scope(["--num=v"] + vals, 1, [o]) for o in ("--num", "-n", "--any", "-a", "--txt", "-t", "--opt", "-o")] + [Scope([n + "=" + v for n in ("--num", "-n", "-o", "--opt") for v in vals[::3]] + ["-n" + v for v in vals[1::3]], 1)])]

def c04_sizes(tier):
    out = []
    for n in (40, 70, 200):
        fs = [F("p%d" % i, "Option<OsString>") for i in range(n)]
        out.append(Fam(Def("pos%d" % n, S("Cli", [F("k", OPT, short="k"), F("f", "bool", short="f")] + fs + ([F("rest", "Vec<OsString>")] if n != 70 else [F("lst", "Vec<OsString>", last=True)]))),
                       [Scope(["1", "-k", "x", "--", "-f"], 3, ["v%d" % i for i in range(m)]) for m in sorted({0, 7, 15, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, n - 2, n - 1, n}) if m <= n]))
    # very many occurrences and elements
    out.append(Fam(Def("posmany", S("Cli", [F("k", "Vec<u8>", short="k"), F("a", "OsString"), F("rest", "Vec<OsString>")])),
                   [Scope(["1", "-k7", "--", "-x"], 2, ["w%d" % (i % 10) if i % 3 else "-k%d" % (i % 10) for i in range(m)]) for m in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)]))
    return out

def deep_cmds(levels, mk, opt=lambda i: True, kinds=("struct", "tuple")):
    """A chain of nested commands: mk(i) -> (fields, flattened groups) of level i, 0 is the innermost; subcommand `down`."""
    fs, fl = mk(0)
    cur = S("D0", fs, flatten=fl)
    for i in range(1, levels):
        fs, fl = mk(i)
        cur = S("D%d" % i, fs, flatten=fl, sub=("subc", opt(i), E("DE%d" % i, [V("Down", kinds[i % len(kinds)], cur), V("Leaf")])))
    return cur

def wide(tier, pid):
    """one of everything behind more than 128 (and, once, more than 240) other arguments of the same struct"""
    def pads(n, pre="b"): return [F("%s%d" % (pre, i), "bool", long="%s%d" % (pre, i)) for i in range(n)]
    lv = VE("Wl", ["Low", "High"])
    q = [F("o", OPT, long="opt", short="o", glob=True), F("n", "Option<i8>", short="n", negnum=True), F("hy", OPT, long="hy", hyphen=True), F("v", "Vec<String>", short="v", delim=","),
         F("oo", "Option<Option<u8>>", short="p", long="oo", require_equals=True), F("dd", "u16", long="dd", default="7"), F("e", "Wl", long="e", default_t=("Wl::High", ["High"], ""), icase=True),
         F("x", "bool", short="x", requires=["y"]), F("y", "bool", short="y", conflicts=["z"]), F("z", "bool", short="z", salias="w", glob=True), F("fin", "bool", long="fin")]
    ts = ["--opt=1", "-oq", "-n", "-5", "--hy", "--b0", "--b133", "--b134", "-va,b", "-v", "-p", "-p=3", "--oo=x", "--dd=8", "--e=LOW", "-x", "-y", "-xyw", "-z", "--fin", "--", "w", "300", "", "-h", "--b135"]
    sub = ("subc", True, E("C", [V("Sub", "struct", S("WSub", pads(3, "s") + [F("own", "Option<u8>", short="w")]))]))
    n = 2
    out = [Fam(Def("wide", S("Cli", pads(135) + q + [F("p1", "Option<u8>"), F("p2", OPT, requires=["y"]), F("rest", "Vec<String>"), F("l", "Vec<String>", last=True)]), [lv]),
               [Scope(ts, n), Scope(["w", "--", "4", "-y", "-z"], 4)]),
           Fam(Def("widesub", S("Cli", pads(135) + q + [F("ex", "bool", long="ex", exclusive=True), F("p1", "Option<u8>"), F("rest", "Option<Vec<String>>", trailing=True)], sub=sub), [lv]),
               [Scope(ts + ["sub", "--ex"], n), Scope(["sub", "-w", "1", "-oq", "--opt=2", "-z"], 4 if pid in ("C07", "C08", "C21") else 3, []), Scope(["4", "-y", "w", "--", "sub"], 4)]),
           Fam(Def("widest", S("Cli", pads(246) + [F("v", "Vec<String>", short="v", default="d"), F("fl", "bool", short="f"), F("r", "u8", short="r", alias="rr", default="2"), F("p1", OPT), F("p2", "Vec<u8>"), F("l", "Option<Vec<String>>", last=True)])),
               [Scope(["--b0", "--b127", "--b128", "--b245", "-v1", "-v", "-f", "-fr3", "--rr=4", "1", "x", "--", "-r"], n), Scope(["1", "x", "--"], 4)])]
    return out[{"C07": 1, "C08": 1}.get(pid, 0):]

def c05_sizes(tier):
    out = []
    tail = ["--", "-f", "--foo=1", "sub", "-h", "--help", "x", "-", "--any", ""]
    fl = [F("f", "bool", short="f", long="foo"), F("any", "Vec<OsString>", long="any", short="a", hyphen=True)]
    sub = ("cmd", True, E("Cmd", [V("Sub", "struct", S("SubArgs", [F("g", "bool", short="g"), F("s", "Vec<OsString>")]))]))
    # long tails, long heads, many positional fields before and behind the terminator
    fs = fl + [F("b%d" % i, "bool", long="b%d" % i) for i in range(70)]
    out.append(Fam(Def("dd_long", S("Cli", fs + [F("p", "Vec<OsString>")], sub=sub)),
                   [Scope(["--", "-f", "sub", "x", "--b69"], 2, pre) for m in (31, 63, 64, 65, 127, 128, 129, 255, 256, 257) for pre in (["--"] + [tail[i % 10] for i in range(m)], ["w%d" % i for i in range(m)] + ["--"])] +
                   [Scope(["--", "-f", "--b69", "sub"], 2, ["--b%d" % i for i in range(k)]) for k in (8, 32, 64, 69)]))
    for n in (8, 33, 66):
        ps = [F("p%d" % i, "Option<OsString>") for i in range(n)]
        out.append(Fam(Def("dd_pos%d" % n, S("Cli", fl + ps + [F("l", "Vec<OsString>", last=True)], sub=sub if n == 33 else None)),
                       [Scope(["--", "-f", "sub", "v"], 3, ["w%d" % i for i in range(k)]) for k in sorted({0, 1, n // 2, n - 1, n})] + [Scope(["--", "x"], 2, ["w"] * k + ["--"] + ["-f", "sub"] * j) for k in (0, n - 1, n) for j in (1, 16, 32, 33)]))
    # the terminator at every level of a deep nest, each with its own way to take what follows
    cur = deep_cmds(8, lambda i: ([F("g%d" % i, "bool", short="abcdefgi"[i], glob=i % 2 == 0)] + [[F("p", "Vec<OsString>")], [F("l", "Vec<OsString>", last=True)], [F("o", OPT), F("l", "Option<Vec<OsString>>", last=True)], []][i % 4], []))
    out.append(Fam(Def("dd_deep", cur), [Scope(["--", "down", "-i", "-a", "x"], 2 if tier == "quick" else 3, ["down"] * k) for k in range(8)] + [Scope(["down", "--", "leaf"], 7 if tier == "quick" else 9)]))
    return out

def c06_sizes(tier):
    out = []
    tail = ["--", "-f", "--foo=1", "sub", "-h", "--help", "x", "-", "--nope", ""]
    for n in (0, 7, 33, 65):
        fs = [F("f", "bool", short="f"), F("foo", "Option<OsString>", long="foo")] + [F("p%d" % i, "Option<OsString>") for i in range(n)] + [F("t", "Vec<OsString>", trailing=True)]
        sub = ("cmd", True, E("Cmd", [V("Sub", "struct", S("SubArgs", [F("g", "bool", short="g"), F("s", "Vec<OsString>", trailing=True)]))])) if n != 7 else None
        out.append(Fam(Def("tr_pos%d" % n, S("Cli", fs, sub=sub)), [Scope(tail, 2, ["w%d" % i for i in range(k)]) for k in sorted({0, max(n - 1, 0), n, n + 1})] +
                       [Scope(["-f", "sub", "--", "x"], 2, ["w"] * (n + 1) + [tail[i % 10] for i in range(m)]) for m in (31, 64, 128, 257)]))
    cur = deep_cmds(8, lambda i: ([F("g%d" % i, "bool", short="abcdefgi"[i], glob=i % 2 == 0), F("t", "Vec<OsString>", trailing=True)][0 if i % 3 else 1 - i % 2:], []))
    out.append(Fam(Def("tr_deep8", cur), [Scope(["down", "leaf", "-i", "-a", "--", "x"], 3, ["down"] * k) for k in range(8)]))
    return out

def c12_sizes(tier):
    out = []
    types = [("String", "s%d"), ("u16", "%d"), ("OsString", "o%d"), ("Option<u16>", "%d"), ("Vec<u16>", "%d,1"), ("Option<Vec<String>>", "a%d"), ("bool", None), ("i32", "-%d")]
    def fld(i, pre, **kw):
        ty, dv = types[i % len(types)]
        nm = "%s%d" % (pre, i)
        if dv is None: return F(nm, ty, long=nm, default_t=("true", ["true"], "true"), **kw)
        return F(nm, ty, long=nm, default=dv % i, delim="," if "," in dv else None, **kw)
    arg = lambda pre, i: "--%s%d" % (pre, i) + {"bool": ""}.get(types[i % 8][0], "=%d" % (i + 1))
    for n in (33, 65, 130):
        fs = [fld(i, "x") for i in range(n)]
        out.append(Fam(Def("dfltn%d" % n, S("Cli", fs + [F("p%d" % i, "String", default="pd%d" % i) for i in range(n // 3)] + [F("rest", "Vec<u16>", default="5")])),
                       [Scope([arg("x", i) for i in sorted({0, 1, 6, 7, 8, 15, 16, 31, 32, n - 2, n - 1})], 2)] + [Scope([arg("x", n - 1), "8"], 2, ["7"] * k) for k in (0, n // 3 - 1, n // 3)]))
    # groups in groups, and deep commands: each place has its own
    cur = S("G0", [fld(0, "g"), fld(6, "g")])
    for i in range(1, 9): cur = S("G%d" % i, [fld(8 + i, "g")] + ([fld(16 + i, "h")] if i % 2 else []), flatten=[("fl", cur)])
    out.append(Fam(Def("dfltflat", S("Cli", [fld(3, "r")], flatten=[("a", cur), ("b", S("H", [fld(4, "q"), fld(5, "q")]))])), [Scope([arg("g", 0), arg("g", 6), arg("g", 9), arg("g", 14), arg("g", 16), arg("h", 17), arg("h", 23), arg("r", 3), arg("q", 4)], 3)]))
    deep = deep_cmds(7, lambda i: ([fld(i, "v", glob=i % 2 == 0), fld(i + 1, "w")], [("k", S("K%d" % i, [fld(i + 2, "k", glob=i % 3 == 0)]))]))
    out.append(Fam(Def("dfltdeep", deep), [Scope(["down", "leaf"] + [arg("v", i) for i in (6, 4, 2, 0)] + [arg("k", 8), arg("k", 5)], 3, ["down"] * k) for k in (0, 2, 4, 6)]))
    return out

def paths():
    """long command paths: names of many lengths below one another, and many levels"""
    def nm(n): return ("abcdefgijklmnopqrstuvwxyz" * 13)[:n].capitalize()
    leaf = lambda k: S("L%d" % k, [F("v", "Option<u8>", short="v")])
    inner = lambda k: S("In%d" % k, [F("g", "bool", short="g", glob=True)], sub=("subc", k % 2 == 0, E("InE%d" % k, [V(nm(n), "struct" if n == 2 else "unit", *( [leaf(k)] if n == 2 else [])) for n in (2, 31, 40, 64, 90, 130, 260)])))
    L = (1, 7, 8, 15, 16, 23, 24, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 300)
    root = S("Cli", [F("f", "bool", short="f", long="flag", glob=True)], sub=("subc", True, E("C", [V(nm(n), "tuple" if n % 2 else "struct", inner(n)) if n in (8, 33, 65, 129, 300) else V(nm(n)) for n in L])))
    low = lambda n: nm(n).lower()
    sc = [Scope(["--help", "-h", "-fh", "--nope", "x"], 1, a) for a in [[low(n)] for n in L] + [[low(n), low(m)] for n in (8, 33, 65, 129, 300) for m in (2, 31, 40, 64, 90, 130, 260)]]
    deep = deep_cmds(26, lambda i: ([F("g%d" % i, "bool", long="g%d" % i, glob=i % 3 == 0)], []))
    return [Fam(Def("longpath", root), sc), Fam(Def("deep26", deep), [Scope(["--help", "-h", "down", "leaf", "--g24", "--g0", "--g9"], 2, ["down"] * k) for k in (0, 7, 11, 14, 15, 16, 17, 20, 23, 24, 25)])]

def c16_sizes(tier):
    out = paths()
    big = [F("b%d" % i, "Option<u8>", long="b%d" % i, short=chr(0x500 + i)) for i in range(130)] + [F("hostile", "bool", long="helper"), F("req", "u8", long="req")]
    out.append(Fam(Def("helpbig", S("Cli", big + [F("p", "Vec<OsString>")], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("q%d" % i, "bool", long="q%d" % i) for i in range(70)] + [F("need", "u8", short="n")]))])))),
                   [Scope(["-h", "--help", "sub", "--b129", "x"], 2, pre) for pre in ([], ["--b%d=%d" % (i, i) for i in range(100)], ["w"] * 130, ["-%s%d" % (chr(0x500 + i), i % 9) for i in range(130)], ["sub"] + ["--q%d" % i for i in range(69)])]))
    for own in range(8):      # an own -h or --help at one level of eight
        cur = deep_cmds(8, lambda i: ([F("g%d" % i, "bool", short="abcdefgi"[i])] + ([F("mine", "bool" if own % 2 else OPT, **({"short": "h"} if own % 3 else {"long": "help"}), glob=own in (2, 5))] if i == own else []), []))
        out.append(Fam(Def("helpdeep%d" % own, cur), [Scope(["down", "-h", "--help", "--help=v"], 2, ["down"] * k) for k in range(8)]))
    return out

def c21_sizes(tier):
    import random
    r = random.Random(21)
    fs = [F("o%d" % i, ["Option<u16>", "Vec<u16>", "bool", "Option<OsString>"][i % 4], long="o%d" % i) for i in range(90)]
    al = [("--o%d" if i % 4 == 2 else "--o%d=%d") % ((i,) if i % 4 == 2 else (i, i)) for i in range(90)]
    g = S("G", [F("g%d" % i, "Option<u16>", long="g%d" % i) for i in range(20)])
    al += ["--g%d=%d" % (i, i) for i in range(20)]
    sc = []
    for k in (10, 33, 65, 108):
        x = al[:]; r.shuffle(x)
        if k > 60: sc.append(Scope(x[k:k + 2] + ["--o1=7", "--o1", "--o5=8"], 3, x[:k]))
        else: sc.append(Scope(x[k:k + 4] + ["--o1=7", "--o1"], 3, x[:k]))
    return [Fam(Def("orderbig", S("Cli", fs + [F("p", "Vec<OsString>")], flatten=[("g", g)])), sc)]

def c07_sizes(tier):
    out = paths()
    def ident(i): return "".join(chr(97 + int(c)) for c in "%03d" % i).capitalize()
    for n in (33, 65, 130, 300):
        ids = [ident(i * 7 % 1000) for i in range(n)]
        vs = [V(i, "unit") if k % 5 else V(i, "struct", S("M%d" % k, [F("v%d" % k, "Option<u8>", short="v")])) for k, i in enumerate(ids)]
        nm = [i.lower() for i in ids]
        toks = nm + [x + "a" for x in nm[::7]] + [x[:-1] for x in nm[::7]] + [i for i in ids[::9]] + ["zzz", "aaaa", ""]
        out.append(Fam(Def("cmds%d" % n, S("Cli", [F("q", "bool", short="q"), F("p", "Option<OsString>")], sub=("cmd", True, E("Cmd", vs)))), [Scope(toks, 1), Scope(nm[::n // 8] + nm[-2:] + ["-v1", "-q", "x"], 2)]))
    # long command names that share everything but the end
    ids, nm = [], []
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257):
        b = ("abcdefgijklmnopqrstuvwxyz" * 11)[:n - 1].capitalize()
        for c in "xy" if n > 1 else "X": ids.append(b + c); nm.append((b + c).lower())
    vs = [V(i, "unit") if k % 3 else V(i, "struct", S("M%d" % k, [F("v%d" % k, "Option<u8>", short="v")])) for k, i in enumerate(ids)]
    out.append(Fam(Def("cmdlong", S("Cli", [], sub=("cmd", True, E("Cmd", vs)))), [Scope(nm + [x[:-1] for x in nm] + [x + "x" for x in nm] + [x[:-1] + "z" for x in nm], 1), Scope(nm[::4] + ["-v1"], 2)]))
    return out

def c09_sizes(tier):
    """several groups (and the container) declaring the same names: the first in search order wins"""
    out = []
    r = random.Random("c09s")
    for k in range(12 if tier == "quick" else 60):
        ng = 2 + k % 4
        cnt = [0]
        def grp(j, lvl):
            fs = []
            for nm in r.sample("pqrs", r.choice([1, 2, 3])):
                i = cnt[0]; cnt[0] += 1
                sh = r.random() < .5
                fs.append(F("f%d" % i, r.choice([OPT, OPT, "Vec<OsString>", "bool"]), **({"short": nm} if sh else {"long": nm}), **({"salias": [x for x in "xy" if r.random() < .4]} if sh and r.random() < .5 else {"alias": [x for x in ("xx", "yy") if r.random() < .4]}), glob=r.random() < .3))
            g = S("K%d_%d" % (j, lvl), fs)
            if lvl < 2 and r.random() < .35: g.flatten = [("in%d_%d" % (j, lvl), grp(j * 10 + 1, lvl + 1))]
            return g
        def uniq(f, used):
            a = []
            for x in f.alias + ["-" + y for y in f.salias]:
                if x not in used: used.add(x); a.append(x)
            f.alias = [x for x in a if x[0] != "-"]; f.salias = [x[1:] for x in a if x[0] == "-"]
        def fix(s):
            used = set()
            for f in s.fields: uniq(f, used)
            for _, g in s.flatten: fix(g)
        own = [F("own%d" % i, OPT, short=c) for i, c in enumerate(r.sample("pqrs", k % 3))]
        root = S("Cli", own, flatten=[("g%d" % j, grp(j, 0)) for j in range(ng)], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("zp", OPT, short="p")], flatten=[("h", S("H", [F("zp2", OPT, short="p", long="p"), F("zx", "bool", short="x")])), ("h2", S("H2", [F("zq", OPT, short="x", long="p"), F("zr", "bool", short="r", long="q")]))]))])))
        fix(root)
        if k % 2: root.order = [g for g, _ in root.flatten[:1]] + [f.ident for f in own] + ["subc"] + [g for g, _ in root.flatten[1:]]
        al = ["--%s=1" % c for c in "pqrs"] + ["-%s" % c for c in "pqrs"] + ["--xx=2", "--yy=3", "-x4", "-y"]
        out.append(Fam(Def("collide%d" % k, root), [Scope(al + ["sub", "v"], 2), Scope(["-p1", "--p=2", "-x", "-x=3", "--q", "-r", "-q5", "--xx"], 2, ["sub"])]))
    return out

def big_enum(n, name="Big"):
    vs = []
    for i in range(n):
        vs.append("V%dx" % i if i % 3 == 0 else ("W%d" % i, (STEM[:i + 3] + "0") if i % 3 == 1 else "name %d" % i))
    return VE(name, vs), ["v%dx" % i if i % 3 == 0 else (STEM[:i + 3] + "0") if i % 3 == 1 else "name %d" % i for i in range(n)]

def c14_sizes(tier):
    out = []
    for n in (16, 17, 33, 65, 130):
        t, nm = big_enum(n)
        probes = nm + [x[:-1] for x in nm[::4]] + [x + "0" for x in nm[::4]] + [x.upper() for x in nm[::3]]
        out.append(Fam(Def("enum%d" % n, S("Cli", [F("e", "Option<Big>", long="e"), F("l", "Vec<Big>", short="l", delim=",", icase=True), F("p", "Option<Big>")]), [t]),
                       [Scope(["--e=" + x for x in probes], 1), Scope(["-l" + x for x in probes[::2]] + ["-l" + ",".join(nm[::5]), "-l" + ",".join(nm), "-l" + ",".join(nm) + ",q"], 1), Scope(probes[1::2], 1)]))
    # long values and many fragments
    frag = [str(i % 256) for i in range(300)]
    out.append(Fam(Def("frags", S("Cli", [F("v", "Vec<u8>", short="v", delim=","), F("s", "Vec<String>", short="s", delim=":"), F("i", "Option<u128>", long="i"), F("c", "Vec<char>", short="c", delim=","), F("d", "Vec<i64>", long="d", delim="-")])),
                   [Scope(["-v" + ",".join(frag[:k]) for k in (1, 2, 16, 17, 32, 33, 64, 65, 128, 256, 257, 300)] + ["-v" + ",".join(frag[:k]) + ",x" for k in (31, 63, 64, 128)] + ["-s" + "a:" * k for k in (1, 16, 33, 64, 65, 128, 129, 256)] + ["-s" + "é" * k for k in (16, 64, 200)] +
                          ["--i=" + "0" * k + "7" for k in (1, 19, 20, 38, 39, 40, 64, 128, 300)] + ["--i=" + "9" * k for k in (19, 20, 38, 39, 40)] + ["-c" + ",".join("é我b"[k % 3] for k in range(m)) for m in (33, 65, 130)] + ["--d=" + "-".join(frag[:k]) for k in (5, 40, 80)], 1)]))
    return out

def c15_sizes(tier):
    out = []
    for n in (8, 16, 17, 33, 65):
        t, nm = big_enum(n)
        fs = [F("e", "Option<Big>", long="e", short="E", value_name="N" * n), F("p", "Option<Big>"), F("x" * n, "Option<u8>", long=True), F("y", "Option<u8>", short="y", value_name="Y" * n)] + [F("r%d" % i, "u8", long="r%d" % i, default="1") for i in range(n)]
        root = S("Cli", fs, flatten=[("g", S("G", [F("gg", "Option<u8>", long="g" * n, short="g")]))], sub=("subc", True, E("C", [V("Z" * 1 + "a" * n, "struct", S("Sb", [F("in_sub", "Option<Big>", long="in-sub")]))])))
        out.append(Fam(Def("blame_%d" % n, root, [t]), [Scope(["--e", "--e=", "-Ex", "--e=" + nm[0], "--e=" + nm[-1], nm[0], "bad", "--%s=q" % ("x" * n), "--" + "x" * n, "--" + "x" * (n + 1), "-yq", "-y", "--%s=300" % ("g" * n), "-g", "--r0=x", "--r%d=x" % (n - 1), "--r%d" % n, "q" * 300, "--e=" + "q" * 300, "--" + "q" * 300, "--q=" + "q" * 300], 2),
                                                     Scope(["--in-sub", "--in-sub=x", "y" * 100, "--r%d=x" % (n - 1), "-Q"], 1, ["z" + "a" * n])]))
    return out

def c17_sizes(tier):
    """how wide the columns are, for names of every length"""
    out = []
    r = random.Random("c17s")
    mk = lambda n: "abcdefgijklmnopqrstuvwxyzabcdefgijklmnop"[:n].capitalize()
    pools = [[1, 26], [1, 13, 14, 15], list(range(1, 31)), [22, 23, 24, 25], [24], [23], [25], [3, 40], [20, 21, 22], [1, 2, 3], [12, 24, 36], [8, 16, 24, 32], [19, 38]]
    for k, ls in enumerate(pools + [r.sample(range(1, 34), r.choice([2, 3, 4])) for _ in range(12 if tier == "quick" else 60)]):
        used, vs = set(), []
        for j, n in enumerate(ls):
            i = mk(n)
            if i in used: continue
            used.add(i); vs.append(V(i, about=[[], "Doc of %d" % n, ["Two", "lines", "", "more"]][(j + k) % 3] if (j + k) % 4 else "Doc"))
        r.shuffle(vs)
        fs = [F("a%d" % n, ["bool", OPT, "u8"][n % 3], long="l" * n, short=chr(97 + n % 7) if n % 2 and j_ < 7 else None, doc="D%d" % n, value_name="V" * n if n % 4 == 1 else None) for j_, n in enumerate(sorted(set(ls))[:6])]
        seen = set()
        for f in fs:
            if f.short in seen: f.short = None
            if f.short: seen.add(f.short)
            if f.kind()[0] == "bool": f.value_name = None
        out.append(Fam(Def("wide%d" % k, S("Cli", fs, sub=("subc", k % 2 == 0, E("C", vs)))), []))
    out += [Fam(f.d, []) for f in paths()]
    # many of everything
    n = 70
    t, nm = big_enum(20)
    out.append(Fam(Def("crowd", S("Cli", [F("o%d" % i, ["bool", OPT, "u8", "Vec<u8>", "Option<Big>"][i % 5], long="o%d" % i, hide=i % 13 == 5, doc="Doc %d" % i if i % 3 else []) for i in range(n)] + [F("p%d" % i, "Option<u8>", doc="Pos %d" % i) for i in range(n)],
                                  flatten=[("g%d" % k, S("G%d" % k, [F("g%d_%d" % (k, i), OPT, long="g%d-%d" % (k, i)) for i in range(3)])) for k in range(20)],
                                  sub=("subc", True, E("C", [V("Cmd%dx" % i, about="Command %d" % i) for i in range(n)])), about=["Line %d" % i if i % 4 else "" for i in range(40)]), [t]), []))
    return out

# ---------------------------------------------------------------------------------------------- C01
# ------------------------------------------------------------------------------------------- contexts
# An argument behaves the same wherever it lives: directly in its command, in a flattened group, in a group of a
# group, or - as a global one - used behind subcommands of its command.
CONTEXTS = ["flat1", "glob1", "flat2", "glob2", "gflat2", "glob4"]

def recontext(fam, ctx, cap):
    """the same arguments moved to another place, explored with the same elements; None where that makes no sense"""
    import copy
    root = fam.d.root
    named = [f for f in root.fields if f.long is not None or f.short is not None]
    pos = [f for f in root.fields if f not in named]
    ids = {f.ident for f in named}
    if not named or any(f.exclusive for f in root.fields) or fam.twin or any(f.raw_attrs for f in named): return None
    if any((i in ids) != (f in named) for f in root.fields for i in f.requires + f.conflicts): return None
    named = [copy.copy(f) for f in named]
    k = int(ctx[-1]) if "gl" in ctx or "gf" in ctx else 0
    if k:
        for f in named: f.glob = True
    group = S("CtxG", named)
    if ctx == "flat2": group = S("CtxH", [], flatten=[("ctxg", group)]) if any(f.requires or f.conflicts for f in named) else S("CtxH", named[1::2], flatten=[("ctxg", S("CtxG", named[::2]))])
    if not k: new = S("CtxRoot", pos, flatten=[("ctx", group)] + list(root.flatten), sub=root.sub)
    else:
        cur = S("Ctx0", pos, flatten=list(root.flatten), sub=root.sub)
        for i in range(1, k + 1):
            e = E("CtxE%d" % i, [V("Down", ["struct", "tuple"][i % 2], cur), V("Side%d" % i)])
            top = i == k
            cur = S("Ctx%d" % i, named if top and ctx[:2] == "gl" else [], flatten=[("ctx", group)] if top and ctx[:2] == "gf" else [], sub=("ctxs", i % 2 == 0, e))
        new = cur
    d = Def(fam.d.name + "_" + ctx, new, fam.d.own)
    scs = []
    for s in fam.scopes:
        a = s.alpha if len(s.alpha) <= cap else s.alpha[::-(-len(s.alpha) // cap)]
        n = s.n
        while n > 1 and len(a) ** n > cap: n -= 1
        scs.append(Scope(a, n, ["down"] * k + list(s.prefix), s.tail))
        # before, between and behind the commands
        if k: scs.append(Scope(a[:8] + [b"down"], 2, list(s.prefix)))
    return Fam(d, scs)

def contexts(fams, tier, every=2):
    """the definitions of a family in other contexts"""
    out = []
    for j, f in enumerate(fams):
        cs = CONTEXTS if tier != "quick" or j < every else CONTEXTS[j % 6:j % 6 + 1]
        out += [x for x in (recontext(f, c, 250 if tier == "quick" else 3000) for c in cs) if x]
    return out

def borrowed(tier, pick, twin=False):
    """definitions of other properties in the contexts whose first letters are `pick`"""
    out = []
    for n, g in enumerate((c02, c03, c10, c11, c12, c14)):
        fs = [f for f in g("quick") if recontext(f, "flat1", 1)]
        # `exclusive` is about the fields of one struct: inlined elsewhere it means something else
        if twin: fs = [f for f in fs if not any(x.exclusive for st in structs_of(f.d.root) for x in st.fields)]
        # moving every global of every case is quadratic in the number of options
        else: fs = [f for f in fs if len(all_fields(f.d.root)) <= 12]
        for j, f in enumerate(fs[:2] if tier == "quick" else fs[:8]):
            cs = [c for c in CONTEXTS if c[0] in pick]
            for c in cs if tier != "quick" else [cs[(n + j) % len(cs)]]:
                x = recontext(f, c, (150 if twin else 40) if tier == "quick" else 1000)
                x.d.name = "%s_%s" % (g.__name__, x.d.name); x.twin = twin
                out.append(x)
    return out

def many_names(n=40, name="manynames"):
    """Many options whose names are prefixes, extensions and case variants of each other."""
    base = ["a", "aa", "aaa", "ab", "abc", "abcd", "b", "ba", "A", "AA", "Ab", "a-b", "a_b", "a.b", "a1", "1", "10", "é", "éa", "aé", "日", "日本", "z", "zz",
            "zzz", "help-x", "hel", "no-a", "no", "n", "x y", "a'b", 'a"b', "~", "!", "\u00ff", "\u0100", "😀", "😀a", "aaaa", "aaaaa", "B", "C", "c", "d"]
    sh = list("abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQ0123") + ["é", "日", "ÿ", "Ā", "😀", "~", "!"]
    fs = []
    for i in range(n):
        kw = {}
        if i < len(base): kw["long"] = base[i]
        if i < len(sh): kw["short"] = sh[i]
        if i % 7 == 3: kw["alias"] = ["al%d" % i, "al%dx" % i]
        if i % 7 == 5: kw["alias"] = ["%s%d" % (chr(122 - i % 25), j) for j in (9, 1, 5)]
        fs.append(F("f%d" % i, ["bool", "Option<u8>", "Vec<String>"][i % 3], **kw))
    return Def(name, S("Cli", fs)), base[:n], sh[:n]

def c01(tier):
    out = []
    d = Def("spell", S("Cli", [
        F("foo", OPT, long=True, short=True, alias=["fo", "foo-bar"], salias=["F"]),
        F("bar", "Vec<String>", long="bar", short="b", alias="baz"),
        F("quiet", "bool", long=True, short="q", alias=["q", "silent"], salias=["Q"]),
        F("rest", OPT)]))
    out.append(Fam(d, [Scope(["--foo", "-f", "--fo=x", "-Fx", "--foo-bar=", "--foo=a=b", "-f=x", "--bar", "-bv", "--baz=v", "-q", "--silent", "x", "--foo-ba=x", "--q"], 3 if tier == "quick" else 4)]))
    # inline values: the first `=` separates, everything behind it is the value
    tails = ["", "=", "==", "=x", "=x=y", "==x", "= ", "=-", "=--", "=é", b"=\xff", "x", "x=", "x=y", "-", " ", "é", "=\n", "-f", "=-f", b"\xff", "=\0"]
    out.append(Fam(Def("inline", S("Cli", [
        F("foo", "Option<OsString>", long=True, short=True, alias="foó", salias=["ó"]), F("foo2", "Option<OsString>", long="foo-x", short="x"),
        F("eq", "Option<OsString>", long="é", short="é"), F("sp", "Vec<OsString>", long="a b", short="@")])),
        [Scope([tb(n) + tb(t) for n in ["--foo", "-f", "--foó", "-ó", "--foo-x", "-x", "--é", "-é", "--a b", "-@", "--FOO", "--fo", "-F"] for t in tails], 1),
         Scope(["--foo", "-f", "--foó", "-ó", "-é", "-@", "--a b", "v", "=v", "", "-", "--foo=", "-f=", "-@=", "-x=="], 3)]))
    # every declared name, neighbours of declared names
    d, ls, ss = many_names()
    toks = []
    for l in ls: toks += ["--" + l, "--" + l + "=1", "--" + l + "x", "--" + l[:-1], "--" + l.swapcase()]
    for s in ss: toks += ["-" + s, "-" + s + "=1", "-" + s + "1"]
    toks += ["--al%d" % i for i in range(40)] + ["--al%dx" % i for i in range(40)] + ["--al3x=2", "--q9", "--q1=3", "--q5", "--q", "--x9", "--j9", "--j1=1"]
    out.append(Fam(d, [Scope(toks, 1), Scope(["-a", "--a", "--aa", "--aa=1", "--aaa", "--é", "-é", "-日", "1", "--日本=1", "-😀", "--al3", "--al3x"], 3)]))
    # texts that are easily confused with a declared name
    sh = ["k", "é", "\ufffd", "S", "ß", "\u0131", "日", "_", "1"]
    d = Def("nearby", S("Cli", [F("f%d" % i, ["bool", "Option<OsString>", "Option<Option<OsString>>"][i % 3], long=l, require_equals=i % 3 == 2, glob=i % 2 == 0) for i, l in enumerate(NEARNAMES)] +
                                   [F("s%d" % i, ["bool", "Option<OsString>"][i % 2], short=c, glob=i % 4 < 2) for i, c in enumerate(sh)], sub=("cmd", True, E("C", [V("Go", "struct", S("Go", [F("z", "bool", short="z", long="zed-arg")]))]))))
    nl = [b"--" + x for n in NEARNAMES for x in near(n)]
    toks = nl + [x + b"=v" for x in nl[::3]] + [b"-" + tb(n) for n in NEARNAMES] + [b"-" + x for c in sh for x in near(c)] + ["--" + c for c in sh] + ["--" + n for n in NEARNAMES]
    toks = [tb(t) for t in toks]
    if tier == "quick": toks = toks[::2] + [t for t in toks[1::2] if b"_" in t or b"\xff" in t or b"\xef" in t]
    out.append(Fam(d, [Scope(toks, 1), Scope(toks[::6], 1, ["go"])]))
    # names reached through flattening, inheritance from outer commands, raw identifiers
    g = S("G", [F("level", "Option<u8>", long=True, short="l", alias=["lvl", "ll"], salias=["L"]), F("r#type", OPT, long=True, short=True, alias="ty")])
    g2 = S("G2", [F("deep", OPT, long=True, alias=["dee"], salias=["ð"], glob=True)])
    g.flatten = [("g2", g2)]
    run = S("Run", [F("out", OPT, long=True, short="o", alias="output"), F("nick", "bool", short="n", salias=["N"])])
    d = Def("reach", S("Cli", [F("verbose", "bool", long=True, short="v", alias=["verb"], salias=["V"], glob=True), F("config", OPT, long=True, short="c", alias=["cfg", "conf"], salias=["C"], glob=True)],
                       flatten=[("g", g)], sub=("cmd", True, E("Cmd", [V("Run", "struct", run), V("Stop")]))))
    out.append(Fam(d, [Scope(["--level=1", "-l1", "-L", "--ll", "7", "--type=t", "-t", "--ty=x", "--deep=1", "-ð=2", "--dee", "-v", "--verb", "-V", "--cfg=1", "-C2", "run", "stop", "-o=1", "--output", "-N", "--r#type=1", "-r"], 3)]))
    return out + c01_sizes(tier)

# ---------------------------------------------------------------------------------------------- C02
def c02(tier):
    out = []
    fs = [F("a", "bool", short=True), F("b", "bool", short="b", salias=["B", "ß"]), F("c", "Option<OsString>", short="c", salias=["我"]), F("e", "bool", short="é"),
          F("o", "Option<Option<String>>", short="o", require_equals=True), F("l", "Vec<String>", short="l", long="list")]
    q = tier == "quick"
    d = Def("bundle", S("Cli", fs))
    al = ["a", "b", "c", "é", "o", "=", "x", "h", "-", b"\xff"]
    toks = [b"-" + w for w in words(al, 1, 3)]
    toks += [b"-" + w for w in words(["a", "B", "ß", "我", "l", "v", "é"], 3, 4)][::1 if not q else 3]
    out.append(Fam(d, [Scope(toks, 1), Scope(["-a", "-ab", "-abc", "-c", "-éc", "-b", "-ac=v", "-ao", "-ao=", "-lv", "-al", "v", "-", "-é我", "-ba", "-ca", "--list", "--"], 3)]))
    # bundles in subcommands with inherited globals; counts of members beyond 64
    many = [F("m%d" % i, "bool", short=chr(0x400 + i)) for i in range(70)]
    d2 = Def("longbundle", S("Cli", many + [F("val", OPT, short="v"), F("num", "Vec<u8>", short="n")]))
    allm = "".join(chr(0x400 + i) for i in range(70))
    out.append(Fam(d2, [Scope(["-" + allm, "-" + allm[:65], "-" + allm[65:], "-" + allm + "v", "-" + allm + "v=x", "-" + allm + "vx", "-" + allm + allm[0], "x", "-n1", "-" + allm[:33] + "n9", "-" + allm[::-1] + "n=300",
                               "-" + allm[:10] + "?" + allm[10:], "-" + allm[3] * 2, "-n", "-Ђn"], 2)]))
    sub = S("Sub", [F("x", "bool", short="x", salias=["X"]), F("y", OPT, short="y"), F("a", "bool", short="a")])
    d3 = Def("globbundle", S("Cli", [F("g", "bool", short="g", glob=True), F("k", "Option<u8>", short="k", glob=True, salias=["K"]), F("a", "bool", short="a", glob=True), F("n", "bool", short="n")],
                            sub=("cmd", False, E("Cmd", [V("Sub", "struct", sub)]))))
    toks = [b"-" + w for w in words(["g", "x", "k", "a", "1", "n"], 1, 3)]
    out.append(Fam(d3, [Scope(toks, 1, ["sub"]), Scope(["sub", "-g", "-ga", "-gx", "-xg", "-a", "-gk1", "-xk", "1", "-yk", "-n", "-K=2", "-ax"], 4)]))
    # negative numbers and hyphen values next to bundles; multi-byte short before a value
    d4 = Def("hybundle", S("Cli", [F("a", "bool", short="a"), F("n", "Option<i8>", short="n", negnum=True), F("v", "Vec<OsString>", short="v", hyphen=True), F("w", "Option<OsString>", short="ẃ"), F("one", "bool", short="1")]))
    out.append(Fam(d4, [Scope(["-an", "-1", "-a1", "-an-1", "-av", "-avx", "-v", "-a", "-vaa", "-aẃ", "-ẃé", "-n1", "-1n", "-ẃ=", b"-\xe1\xba", b"-a\xe1\xba\x83", b"-\xe1\xba\x83\xff", b"-a\xe1"], 3)]))
    return out

# ---------------------------------------------------------------------------------------------- C03
VALTOKS = ["-", "--", "---", "-1", "-12", "-1a", "-a", "--foo", "", "v", "-٣", "-é", b"-\xff", b"-1\xff", "-0x1", "-1.5", "-1e3", "--1", "-+1", "+1", "1-", "=", "-=", "--=", "- 1", "-1 ", "−1", "help", "-h", "--help", "sub", "\u00a0", "-\u00a0", b"\xe2\x88"]
def c03(tier):
    out = []
    fs, opts = [], []
    k = 0
    for ty in ["OsString", "Option<OsString>", "Vec<OsString>", "Option<Vec<OsString>>", "Option<Option<OsString>>", "bool"]:
        for hy in ["", "hyphen", "negnum"]:
            for re_ in [False, True]:
                kw = {}
                if ty == "bool" and (hy or re_): continue
                if ty.startswith("Option<Option"):
                    if hy or not re_: continue
                elif re_ and hy: continue
                if hy: kw[hy] = True
                if re_: kw["require_equals"] = True
                if ty == "OsString": kw["default"] = "d"
                s = chr(97 + k) if chr(97 + k) != "h" else "H"
                fs.append(F("f%d" % k, ty, long="f%d" % k, short=s, **kw)); opts.append(("--f%d" % k, "-" + s)); k += 1
    d = Def("hyeq", S("Cli", fs + [F("end", "Option<OsString>")], sub=("cmd", True, E("Cmd", [V("Sub")]))))
    sc = []
    for l, s in opts:
        sc.append(Scope(VALTOKS + [l, s], 1, [l]))
        sc.append(Scope(VALTOKS, 1, [s]))
        sc.append(Scope([tb(n) + tb(x) for n in (l, s) for x in ["", "=", "=v", "=-1", "=--", "v", "=-", "==", b"=\xff"]] + ["v", "-", "-1", "--"], 2))
    out.append(Fam(d, sc))
    # a swallowed-looking element keeps its own meaning; hyphen values swallow anything once
    d = Def("hymix", S("Cli", [F("any", "Vec<OsString>", long="any", short="a", hyphen=True), F("num", "Vec<i16>", long="num", short="n", negnum=True), F("txt", OPT, long="txt", short="t"),
                               F("opt", "Option<Option<u8>>", long="opt", short="o", require_equals=True), F("flag", "bool", long="flag", short="f"), F("pos", "Vec<OsString>")]))
    out.append(Fam(d, [Scope(["--any", "-a", "--num", "-n", "--txt", "-t", "-o", "--opt", "-o=1", "--opt=", "-f", "-1", "v", "--", "-"], 4 if tier == "quick" else 5)]))
    # OptOpt in all surroundings: global, in a flattened group, in a bundle, with an enum type
    en = VE("Color", ["Auto", "Always", ("Never", "no")])
    grp = S("G", [F("color", "Option<Option<Color>>", long="color", short="c", alias="colour", salias=["C"], require_equals=True)])
    d = Def("optopt", S("Cli", [F("lvl", "Option<Option<i8>>", long="level", short="é", require_equals=True, glob=True), F("f", "bool", short="f", glob=True), F("p", OPT)], flatten=[("g", grp)],
                        sub=("cmd", True, E("Cmd", [V("Sub", "struct", S("Sub", [F("q", OPT)]))]))), [en])
    out.append(Fam(d, [Scope(["--color", "-c", "-C=auto", "--colour=no", "--color=", "-fc", "-fc=always", "-cf", "--level", "-é", "-é=-1", "-fé=1", "auto", "sub", "--color=Auto"], 3)]))
    return out + c03_sizes(tier)

# ---------------------------------------------------------------------------------------------- C04
def c04(tier):
    out = []
    n = 5 if tier == "quick" else 6
    def shape(name, fs, extra=(), **kw):
        toks = ["1", "x", "-", "", "-f", "-o", "--", "-oz"] + list(extra)
        out.append(Fam(Def(name, S("Cli", fs, **kw)), [Scope(toks, kw.pop("n", n - 1))]))
    fl = lambda: [F("f", "bool", short="f"), F("o", OPT, short="o")]
    shape("one", fl() + [F("a", "Option<OsString>")])
    shape("mixed", [F("a", "OsString"), F("f", "bool", short="f"), F("b", "Option<OsString>"), F("o", OPT, short="o"), F("c", "Vec<OsString>")])
    shape("two", fl() + [F("a", "OsString"), F("b", "OsString")])
    shape("typed", fl() + [F("a", "u8"), F("b", "Option<char>"), F("c", "Option<Vec<u8>>")])
    shape("veconly", fl() + [F("a", "Vec<OsString>", required=True)])
    # the variable-length field is declared before the `last` one and after all singles; the source order of the rest varies
    shape("lastfirst", [F("z", "Vec<OsString>", last=True), F("f", "bool", short="f"), F("a", "OsString"), F("o", OPT, short="o"), F("b", "Option<OsString>")])
    shape("lastmid", fl() + [F("a", "Option<OsString>"), F("z", "Option<Vec<OsString>>", last=True), F("b", "Vec<OsString>")])
    # a positional before a subcommand and positionals inside it
    sub = S("Sub", [F("p", "OsString"), F("q", "Vec<OsString>")])
    out.append(Fam(Def("possub", S("Cli", [F("a", "Option<OsString>"), F("f", "bool", short="f", glob=True), F("b", "Option<OsString>")], sub=("cmd", True, E("Cmd", [V("Sub", "struct", sub), V("Other")])))),
                   [Scope(["sub", "other", "x", "1", "-f", "-", "--", "Sub"], n)]))
    # many positionals
    fs = [F("p%d" % i, "Option<OsString>") for i in range(12)] + [F("rest", "Vec<u8>")]
    out.append(Fam(Def("manypos", S("Cli", [F("k", OPT, short="k")] + fs)), [Scope(["1", "-k", "x"], 3, [str(i) for i in range(10)]), Scope(["a", "2", "--"], 4, ["v"] * 11), Scope(["a", "b", "-k=1"], 4)]))
    # optional defaults, required optional, delimiters on positionals, enum positionals
    en = VE("Mode", ["Fast", "SlowMo"])
    out.append(Fam(Def("posattr", S("Cli", [F("m", "Mode"), F("n", "u8", default="5"), F("r", "Option<OsString>"), F("v", "Vec<u8>", delim=",")]), [en]),
                   [Scope(["fast", "slow-mo", "Fast", "5", "1,2", "1,,2", "", ",", "x", "--", "-"], 4 if tier == "quick" else 5)]))
    return out + c04_sizes(tier)

# ---------------------------------------------------------------------------------------------- C05
def c05(tier):
    out = []
    n = 4 if tier == "quick" else 5
    toks = ["--", "x", "-f", "--foo", "sub", "-h", "--help", "-", "--any", ""]
    fl = lambda: [F("f", "bool", short="f", long="foo"), F("any", "Vec<OsString>", long="any", short="a", hyphen=True)]
    sub = lambda nm="Sub": ("cmd", True, E("Cmd", [V("Sub", "struct", S("SubArgs", [F("g", "bool", short="g"), F("s", "Vec<OsString>")])), V("Two", "struct", S("TwoArgs", [F("l", "Vec<OsString>", last=True), F("t", "Option<OsString>")]))]))
    out.append(Fam(Def("dd_vec", S("Cli", fl() + [F("p", "Vec<OsString>")], sub=sub())), [Scope(toks, n)]))
    out.append(Fam(Def("dd_last", S("Cli", fl() + [F("p", "Option<OsString>"), F("l", "Vec<OsString>", last=True)])), [Scope(toks, n)]))
    out.append(Fam(Def("dd_lastreq", S("Cli", [F("l", "Vec<OsString>", last=True, required=True)] + fl() + [F("p", "OsString"), F("q", "Vec<OsString>")])), [Scope(toks, n)]))
    out.append(Fam(Def("dd_lastopt", S("Cli", fl() + [F("l", "Option<Vec<u8>>", last=True, delim=",")], sub=sub())), [Scope(["--", "1", "1,2", "-f", "sub", "-h", "two", "", "--any", "--any=--"], n)]))
    out.append(Fam(Def("dd_singles", S("Cli", fl() + [F("a", "Option<OsString>"), F("b", "Option<OsString>"), F("c", "Option<OsString>")], sub=("cmd", False, E("Cmd", [V("Sub")])))), [Scope(toks, n)]))
    out.append(Fam(Def("dd_nopos", S("Cli", fl() + [F("o", "Option<OsString>", long="opt")], sub=("cmd", True, E("Cmd", [V("Sub", "struct", S("A", [F("x", "bool", short="x"), F("p", "Option<OsString>")]))])))), [Scope(toks + ["--opt", "-x", "--opt=--"], n)]))
    # inside a subcommand: the terminator belongs to the innermost command, globals are gone too
    inner = S("Inner", [F("p", "Option<OsString>"), F("l", "Vec<OsString>", last=True)])
    mid = S("Mid", [F("p", "Option<OsString>"), F("m", "bool", long="mid", glob=True)], sub=("cmd", True, E("C2", [V("Inner", "struct", inner), V("Leaf")])))
    out.append(Fam(Def("dd_nested", S("Cli", [F("g", "bool", short="g", glob=True), F("l", "Vec<OsString>", last=True)], sub=("cmd", True, E("C1", [V("Mid", "struct", mid)])))),
                   [Scope(["--", "mid", "inner", "leaf", "-g", "--mid", "x", "-h"], n + 1)]))
    out.append(Fam(Def("dd_trail", S("Cli", fl() + [F("a", "Option<OsString>"), F("t", "Vec<OsString>", trailing=True)])), [Scope(toks, n)]))
    out.append(Fam(Def("dd_single_last", S("Cli", [F("o", "Option<OsString>", short="o")] + [F("l", "Vec<OsString>", last=True)])), [Scope(["--", "-o", "-o=--", "x", "-", "-x", b"\xff", "-h"], n + 1)]))
    return out + c05_sizes(tier)

# ---------------------------------------------------------------------------------------------- C06
def c06(tier):
    out = []
    n = 4 if tier == "quick" else 5
    toks = ["x", "-f", "--foo=1", "--", "sub", "--help", "-h", "-", "-zz", ""]
    fl = lambda: [F("f", "bool", short="f"), F("foo", "Option<OsString>", long="foo")]
    sub = lambda: ("cmd", True, E("Cmd", [V("Sub", "struct", S("SubArgs", [F("g", "bool", short="g"), F("s", "Vec<OsString>", trailing=True)]))]))
    out.append(Fam(Def("tr_only", S("Cli", fl() + [F("t", "Vec<OsString>", trailing=True)])), [Scope(toks, n)]))
    out.append(Fam(Def("tr_after", S("Cli", fl() + [F("a", "OsString"), F("t", "Option<Vec<OsString>>", trailing=True)])), [Scope(toks, n)]))
    out.append(Fam(Def("tr_sub", S("Cli", fl() + [F("t", "Vec<OsString>", trailing=True)], sub=sub())), [Scope(toks + ["-g"], n)]))
    out.append(Fam(Def("tr_req", S("Cli", fl() + [F("a", "Option<OsString>"), F("b", "Option<OsString>"), F("t", "Vec<OsString>", trailing=True, required=True)])), [Scope(["x", "y", "-f", "--", "--help", "-h", "--foo"], n + 1)]))
    out.append(Fam(Def("tr_delim", S("Cli", fl() + [F("t", "Vec<u8>", trailing=True, delim=",")])), [Scope(["1", "1,2", "-1", "--", ",", "-f", "-h", "300"], n)]))
    out.append(Fam(Def("tr_last", S("Cli", fl() + [F("t", "Vec<OsString>", trailing=True), F("l", "Vec<OsString>", last=True)])), [Scope(toks, n)]))
    # single-valued field marked trailing_var_arg: a second value is refused
    out.append(Fam(Def("tr_single", S("Cli", fl() + [F("t", "Option<OsString>", trailing=True)])), [Scope(toks, n - 1)]))
    inner = S("Exec", [F("v", "bool", short="v"), F("prog", "OsString"), F("args", "Vec<OsString>", trailing=True)])
    out.append(Fam(Def("tr_deep", S("Cli", [F("q", "bool", short="q", glob=True), F("o", "Option<OsString>", long="opt", glob=True)], sub=("subc", False, E("C1", [V("Remote", "struct", S("R", [F("k", "Vec<OsString>", short="k", glob=True)], sub=("subc", False, E("C2", [V("Exec", "tuple", inner), V("Ls")]))))])))),
                   [Scope(["a", "-v", "-q", "--opt", "-k1", "--", "ls", "exec", "-h"], n + (0 if tier == "quick" else 1), ["remote", "exec"]), Scope(["remote", "exec", "-q", "x", "-x", "--"], n)]))
    return out + c06_sizes(tier)

# ---------------------------------------------------------------------------------------------- C07
def c07(tier):
    out = []
    n = 4 if tier == "quick" else 5
    leaf = lambda nm, f: S(nm, [f])
    e = E("Cmd", [V("Run", "struct", S("RunA", [F("x", "bool", short="x"), F("p", "Option<OsString>")])), V("RunAll"), V("Ru", "tuple", S("RuA", [F("y", "bool", short="y"), F("q", "Vec<OsString>")])), V("R", "struct", S("RA", [])), V("AddRemote", "struct", S("AR", [F("name", "OsString")]))])
    toks = ["run", "run-all", "ru", "r", "Run", "runall", "add-remote", "add_remote", "x", "-x", "-y", "-t", "--", "run "]
    out.append(Fam(Def("sub_opt", S("Cli", [F("t", "bool", short="t"), F("pos", "Option<OsString>")], sub=("cmd", True, e))), [Scope(toks, n - 1), Scope(["run", "ru", "r", "x", "-x", "-y", "-t", "--", "rx"], n)]))
    out.append(Fam(Def("sub_req", S("Cli", [F("t", "bool", short="t")], sub=("cmd", False, e))), [Scope(toks, n - 1)]))
    out.append(Fam(Def("sub_vec", S("Cli", [F("t", "Vec<OsString>", short="t"), F("pos", "Vec<OsString>")], sub=("cmd", True, e))), [Scope(toks + ["-t="], n - 1)]))
    # many commands (a sorted table must be searched correctly), names that share prefixes, digits, capitals
    ids = ["A", "Aa", "Aaa", "Ab", "AbC", "ABC", "Abcd", "B", "Ba", "B1", "B10", "B2", "C3PO", "Cat", "Catalog", "Cats", "Do", "DoIt", "Doit", "E", "EF", "Help", "HttpGet", "HTTPPost", "Io", "IO2", "Jo", "Key9", "Kez", "L", "Ll", "M_N", "Mm", "Nn", "O", "Oo", "R2D2", "R2d", "Sub1", "Sub10", "Sub2", "Z", "Zz", "Ünder", "r#Type", "r#Match", "X86_64"]
    vs = [V(i, ["unit", "struct", "tuple"][k % 3], None if k % 3 == 0 else S("M%d" % k, [F("v%d" % k, "Option<u8>", short="v")])) for k, i in enumerate(ids)]
    kb = ["a", "aa", "aaa", "ab", "ab-c", "abc", "abcd", "b", "ba", "b1", "b10", "b2", "c3po", "c3-po", "cat", "catalog", "cats", "do", "do-it", "doit", "e", "ef", "help", "http-get", "httppost", "http-post", "io", "io2", "jo", "key9", "kez",
          "l", "ll", "m-n", "mn", "mm", "nn", "o", "oo", "r2-d2", "r2d2", "r2d", "sub1", "sub10", "sub2", "z", "zz", "ünder", "under", "type", "r-type", "r#type", "match", "x86-64", "x8664"]
    toks = kb + ids + [x + "x" for x in kb] + [x[:-1] for x in kb] + [x.upper() for x in kb] + [" a", "a ", b"a\xff", "a\0", "-a", "", "é"]
    out.append(Fam(Def("sub_many", S("Cli", [], sub=("cmd", True, E("Cmd", vs)))), [Scope(toks, 1), Scope(["a", "aa", "cat", "cats", "-v1", "z", "http-get", "sub10"], 3),
                                                                                             Scope([x for n in ["http-get", "m-n", "catalog", "c3-po", "ünder", "type", "x86-64", "do-it"] for x in near(n) if not x.startswith(b"-")], 1)]))
    # deep nesting; the same enum reused at two places; nested optional commands; positionals at each level
    l4 = S("L4", [F("d", "bool", short="d"), F("p4", "Option<OsString>")])
    l3 = S("L3", [F("c", "bool", short="c"), F("p3", "Option<OsString>")], sub=("s", False, E("E3", [V("Four", "tuple", l4), V("End")])))
    l2 = S("L2", [F("b", "bool", short="b"), F("d", OPT, short="d")], sub=("s", True, E("E2", [V("Three", "struct", l3), V("Two", "unit")])))
    out.append(Fam(Def("sub_deep", S("Cli", [F("a", "bool", short="a"), F("p1", "Option<OsString>")], sub=("s", True, E("E1", [V("Two", "struct", l2), V("Three")])))), [Scope(["two", "three", "four", "end", "-a", "-b", "-c", "-d", "x"], n), Scope(["two", "four", "-d", "-b", "x", "end", "-c", "--"], n - 1, ["two", "three"])]))
    shared = S("Shared", [F("k", OPT, short="k"), F("w", "OsString")])
    e2 = E("Inner", [V("Get", "tuple", shared), V("Set", "tuple", shared)])
    out.append(Fam(Def("sub_shared", S("Cli", [F("k", "bool", short="k")], sub=("s", False, E("Outer", [V("Alpha", "struct", S("Al", [], sub=("i", False, e2))), V("Beta", "struct", S("Be", [F("z", "bool", short="z")], sub=("i", True, e2)))])))), [Scope(["alpha", "beta", "get", "set", "-k", "-z", "v"], n + 1)]))
    # eleven levels
    cur = S("D0", [F("leafarg", "bool", short="x")])
    for i in range(1, 12):
        cur = S("D%d" % i, [F("f%d" % i, "bool", short=chr(97 + i) if chr(97 + i) != "h" else "H"), F("p%d" % i, "Option<OsString>")], sub=("s", True, E("DE%d" % i, [V("Down", "tuple", cur), V("Side%d" % i)])))
    out.append(Fam(Def("sub_eleven", cur), [Scope(["down", "-x", "-b", "-l", "v", "side1"], 4, ["down"] * 9), Scope(["down", "side11", "side10", "-l", "-k", "v"], 3)]))
    out.append(Fam(Def("sub_empty", S("Cli", [F("a", "bool", short="a"), F("p", "Option<OsString>")], sub=("s", True, E("Nothing", [])))), [Scope(["x", "-a", "--", "nothing", ""], 3)]))
    return out + c07_sizes(tier)

# ---------------------------------------------------------------------------------------------- C08
def c08(tier):
    out = []
    n = 4 if tier == "quick" else 5
    leaf = S("Leaf", [F("name", OPT, long="name", short="n"), F("loc", "bool", long="loc", short="l")])
    mid = S("Mid", [F("verbose", "Vec<OsString>", long="verbose", short="w", glob=True), F("mine", OPT, long="mine", short="m", glob=True), F("privy", "bool", long="priv", short="p")],
            sub=("subc", True, E("MidC", [V("Leaf", "struct", leaf), V("Bare")])))
    root = S("Cli", [F("verbose", "bool", long="verbose", short="v", glob=True), F("config", OPT, long="config", short="c", alias=["cfg"], salias=["C"], glob=True),
                     F("list", "Vec<u8>", long="list", short="L", glob=True, delim=","), F("local", "bool", long="local", short="p"), F("oo", "Option<Option<u8>>", long="oo", short="o", glob=True, require_equals=True)],
             sub=("subc", True, E("RootC", [V("Mid", "struct", mid), V("Other", "struct", S("Oth", [F("config", "bool", short="c")]))])))
    d = Def("glob3", root)
    out.append(Fam(d, [Scope(["mid", "leaf", "-v", "--verbose", "--cfg=1", "-c", "x", "-L1", "-p", "-n"], n),
                       Scope(["-v", "--verbose", "-c", "--config=2", "-Cx", "-L1,2", "--list", "3", "-m", "--mine=q", "-p", "-w", "--privy", "--local", "-o", "--oo=1", "-l", "-vlc"], n - 2, ["mid", "leaf"]),
                       Scope(["-c", "-v", "--config", "x", "-C", "--list=1", "-p"], n - 1, ["other"]),
                       Scope(["mid", "leaf", "-c1", "-L=1", "-L", "2", "-v", "-o=3"], n, [])]))
    # globals in flattened groups, at several levels, with equal names everywhere
    g1 = S("G1", [F("x", OPT, short="x", long="ex", glob=True), F("y", OPT, short="y")])
    g2 = S("G2", [F("x", OPT, short="x", long="ex2", glob=True), F("y", OPT, short="y", glob=True)])
    g3 = S("G3", [F("y", OPT, short="y", long="why")])
    d = Def("globflat", S("Cli", [F("z", OPT, short="z", glob=True)], flatten=[("g1", g1)], sub=("subc", True, E("C1", [
        V("One", "struct", S("One", [F("z2", OPT, long="zz")], flatten=[("g2", g2)], sub=("subc", True, E("C2", [V("Two", "struct", S("Two", [], flatten=[("g3", g3)])), V("Plain"), V("Zed", "struct", S("Zed", [F("z", "bool", short="z")]))])))),
        V("Ent")]))))
    out.append(Fam(d, [Scope(["one", "two", "plain", "zed", "-x1", "-y2", "-z3", "--ex=4"], n + (1 if tier != "quick" else 0)), Scope(["--ex=1", "--ex2=2", "-x", "-y", "v", "--why=2", "-z", "two"], 3, ["one"]), Scope(["--ex=1", "-x5", "-yv", "-z", "w"], 3, ["one", "zed"])]))
    # required and defaulted globals, constraints on globals
    d = Def("globreq", S("Cli", [F("need", "u8", long="need", short="n", glob=True), F("dflt", "u8", long="dflt", short="d", glob=True, default="9"), F("a", "bool", short="a", glob=True, requires=["b"]), F("b", OPT, short="b", glob=True), F("k", "Option<u8>", short="k", glob=True, conflicts=["a"])],
                         sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("s", "bool", short="s"), F("pos", OPT)], sub=("subc", True, E("C2", [V("Deep")]))))]))))
    out.append(Fam(d, [Scope(["-n1", "sub", "deep", "-d2", "-a", "-b=x", "-k7", "v"], n + (1 if tier != "quick" else 0)), Scope(["-n", "1", "-d", "-ab", "-a", "-b", "x", "-k=1", "deep"], 3, ["sub"])]))
    # the application's own global -h / --help (and one that only claims one of the names), used far below
    for nm, kw in [("globh", dict(short="h", long="help")), ("globhs", dict(short="h")), ("globhl", dict(long="host", alias=["help"]))]:
        for opt in (False, True):
            f = F("hh", OPT if opt else "bool", glob=True, **kw)
            d = Def("%s%d" % (nm, opt), S("Cli", [f, F("q", "bool", short="q")], sub=("subc", True, E("C", [V("One", "struct", S("One", [F("a", OPT, short="a")], sub=("subc", True, E("C2", [V("Two", "struct", S("Two", [F("b", "bool", short="b")], sub=("subc", True, E("C3", [V("Three", "tuple", S("Three", [F("p", OPT)]))])))), V("H", "struct", S("HH", [F("h", OPT, short="h")]))]))))]))))
            out.append(Fam(d, [Scope(["one", "two", "three", "h", "-h", "--help", "-h=x", "--help=y", "v"], n + (0 if tier == "quick" else 1)), Scope(["-h", "--help", "-bh", "-hv", "three", "-hb", "--help="], 3, ["one", "two"])]))
    # a global of every level, all with the same name
    cur = S("E0", [F("s0", OPT, short="s", glob=True), F("p", OPT)])
    for i in range(1, 5): cur = S("E%d" % i, [F("s%d" % i, OPT, short="s" if i != 2 else "t", glob=i != 3, long="l%d" % (i % 2))], sub=("s", True, E("EE%d" % i, [V("Down", "tuple", cur), V("Bare")])))
    out.append(Fam(Def("globsame", cur), [Scope(["down", "bare", "-s1", "-t2", "--l0=3", "--l1=4"], 5), Scope(["-s1", "-t", "--l0=3", "--l1", "4", "v"], 3, ["down"] * 4)]))
    # many levels and a global declared at the end of a long list of fields
    cur = S("D0", [F("own", "bool", short="x")])
    for i in range(1, 7):
        cur = S("D%d" % i, [F("f%d" % i, OPT, long="f%d" % i, glob=i % 2 == 0), F("s%d" % i, "Vec<OsString>", short="s", glob=i in (2, 5))], sub=("s", True, E("DE%d" % i, [V("Down", "tuple", cur)])))
    out.append(Fam(Def("globdeep", cur), [Scope(["down", "-s1", "--f6=a", "--f5=b", "--f2=c"], 6 if tier == "quick" else 7), Scope(["-s", "v", "--f1=1", "--f2=1", "--f3=1", "--f4=1", "--f5=1", "--f6=1", "-x"], 2, ["down"] * 6)]))
    big = [F("b%d" % i, "Option<u8>", long="b%d" % i, glob=i % 10 == 9) for i in range(150)]
    out.append(Fam(Def("globbig", S("Cli", big, sub=("subc", False, E("C", [V("Sub", "struct", S("Sub", [F("q%d" % i, "Option<u8>", long="q%d" % i) for i in range(30)]))])))),
                   [Scope(["--b%d=1" % i for i in (0, 9, 8, 19, 99, 119, 126, 127, 128, 129, 139, 148, 149)] + ["--q29=3", "--q0=1"], 2, ["sub"]), Scope(["--b%d=%d" % (i, i % 100) for i in range(150)], 1, ["sub"])]))
    return out

# ---------------------------------------------------------------------------------------------- C09
def c09(tier):
    out = []
    n = 4 if tier == "quick" else 5
    deep = S("Deep", [F("z", "Vec<OsString>", short="z", long="zed"), F("dd", "u8", long="dd", default="4")])
    g1 = S("G1", [F("a", "bool", short="a"), F("b", "OsString", long="bee", short="b"), F("c", OPT, long="cee", requires=["a"])], flatten=[("deep", deep)])
    g2 = S("G2", [F("k", OPT, short="k", conflicts=["m"]), F("m", "bool", short="m", glob=True), F("v", "Option<Vec<u8>>", short="v", delim=",")])
    root = S("Cli", [F("x", "bool", short="x"), F("pos", OPT), F("w", "u8", short="w", default="3")], flatten=[("g1", g1), ("g2", g2)],
             sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("s", "bool", short="s"), F("q", "Vec<OsString>")], flatten=[("h", S("H", [F("t", "OsString", long="tee", short="t"), F("u", "bool", short="u")]))]))])))
    root.order = ["g1", "x", "pos", "g2", "w", "subc"]
    out.append(Fam(Def("flat", root), [Scope(["-b1", "-a", "--cee=1", "-z", "v", "-kq", "-m", "-v1,2", "sub", "-t1"], n), Scope(["-t", "--tee=1", "-u", "-m", "-k1", "x", "-s"], 3, ["-b1", "sub"]),
                                       Scope(["--dd=7", "-w=1", "-zy", "--zed=1", "-x", "-v=3", "-xa", "-mx", "-xmb", "p"], 3, ["-bq"])], twin=True))
    # collisions: the container wins over the group, the earlier group over the later
    c3 = S("C3", [F("o3", OPT, short="o", long="three")]); c2 = S("C2", [F("o2", OPT, short="o", long="two"), F("p2", OPT, short="p")], flatten=[("c3", c3)])
    c4 = S("C4", [F("o4", "bool", short="o", long="four"), F("p4", "bool", short="p"), F("q4", OPT, long="two")])
    d = Def("collide", S("Cli", [F("q", OPT, short="q", long="three")], flatten=[("c2", c2), ("c4", c4)], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("r", OPT, short="r")], flatten=[("d", S("D", [F("o", OPT, short="o", glob=True), F("r2", OPT, short="r", long="ar")]))]))]))))
    out.append(Fam(d, [Scope(["-o", "-o1", "--two=2", "--three=3", "--four", "-p", "-p1", "v", "-q1", "sub"], 3), Scope(["-o", "-r1", "--ar=2", "-r", "v"], 3, ["sub"])]))
    # required and optional arguments in none, one, two, three and four groups, of every kind
    kinds = ["OsString", OPT, "Vec<OsString>", "Option<Vec<OsString>>", "Option<Option<OsString>>"]
    r = random.Random("c09")
    for k in range(30 if tier == "quick" else 100):
        ng, cnt = [2, 3, 1, 4, 2, 3][k % 6], [0]
        def arg():
            i = cnt[0]; cnt[0] += 1
            ty = r.choice(kinds)
            return F("a%d" % i, ty, long="a%d" % i, short=chr(97 + i) if i < 26 and r.random() < .4 else None, require_equals=ty.startswith("Option<Option"), required=ty != "OsString" and r.random() < .35, glob=r.random() < .15,
                     delim="," if "Vec" in ty and r.random() < .4 else None, default="df" if ty in ("OsString", OPT, "Vec<OsString>") and r.random() < .2 else None)
        def fix(f):
            if f.default is not None: f.required = False
            return f
        def grp(j, lvl):
            g = S("Q%d_%d" % (j, lvl), [fix(arg()) for _ in range(r.choice([0, 1, 1, 2, 3]))])
            if lvl < 2 and r.random() < .4: g.flatten = [("in%d_%d" % (j, lvl), grp(j, lvl + 1))]
            return g
        root = S("Cli", [fix(arg()) for _ in range(r.choice([0, 1, 2]))], flatten=[("g%d" % j, grp(j, 0)) for j in range(ng)], sub=("subc", r.random() < .6, E("C", [V("Sub", "struct", S("Sub", [F("zz", OPT, short="z")], flatten=[("h", S("H", [F("yy", "Option<Vec<u8>>", long="yy", required=r.random() < .5)]))]))])) if r.random() < .3 else None)
        al = [("--%s=1" if f.require_equals or i % 2 else "--%s=x,y" if f.delim else "--%s=") % f.long for i, f in enumerate(all_fields(root))]
        r.shuffle(al)
        if r.random() < .5: root.order = [g for g, _ in root.flatten] + [f.ident for f in root.fields] + (["subc"] if root.sub else [])
        out.append(Fam(Def("flreq%d" % k, root), [Scope(al[:8] + (["sub"] if root.sub else []), 3)] + ([Scope(al[:6] + (["sub", "--yy=3"] if root.sub else []), 2, [x for x in al if x not in al[:3]])] if len(al) > 3 else []), twin=True))
    # seven levels of flattening, ten groups side by side: offsets must be right
    cur = S("N0", [F("n0a", "Option<u8>", long="n0a"), F("n0b", "u8", long="n0b", default="7")])
    for i in range(1, 8):
        cur = S("N%d" % i, [F("n%da" % i, "Option<u8>", long="n%da" % i)] + ([F("n%db" % i, "bool", short=chr(97 + i) if i != 7 else "H")] if i % 2 else []), flatten=[("fl", cur)])
    out.append(Fam(Def("flatdeep", cur), [Scope(["--n%da=%d" % (i, i) for i in range(8)] + ["--n0b=3", "-b", "-d", "-f", "-H"], 2 if tier == "quick" else 3)], twin=True))
    groups = [("g%d" % i, S("W%d" % i, [F("w%d_%d" % (i, j), ["Option<u8>", "Vec<u8>", "bool"][(i + j) % 3], long="w%d-%d" % (i, j), required=(i + j) % 3 == 1 and i == 9, glob=j == 2) for j in range(i % 4)])) for i in range(10)]
    out.append(Fam(Def("flatwide", S("Cli", [F("own", "Option<u8>", long="own"), F("pos", "Vec<OsString>")], flatten=groups, sub=("subc", True, E("C", [V("Sub")])))),
                   [Scope(["--w%d-%d%s" % (i, j, "" if (i + j) % 3 == 2 else "=5") for i in range(10) for j in range(i % 4)] + ["--own=1", "sub", "p"], 2)], twin=True))
    # more than 127 / 128 / 200 places in total, spread over groups
    gs = [("b%d" % k, S("B%d" % k, [F("b%d_%d" % (k, i), "Option<u8>", long="b%d-%d" % (k, i)) for i in range(60)])) for k in range(3)]
    toks = ["--b%d-%d=%d" % (k, i, i) for k in range(3) for i in range(60)]
    out.append(Fam(Def("flatbig", S("Cli", [F("own%d" % i, "Option<u8>", long="own%d" % i) for i in range(60)], flatten=gs)), [Scope(toks + ["--own%d=1" % i for i in range(60)], 1), Scope(toks[::29] + ["--own0=1", "--own59=2"], 2)], twin=True))
    return out + c09_sizes(tier)

# ---------------------------------------------------------------------------------------------- C10
def c10(tier):
    out = []
    n = 4 if tier == "quick" else 5
    d = Def("card", S("Cli", [F("f", "bool", short="f", long="flag", alias="fl"), F("r", "OsString", long="req", short="r", default="d"), F("o", "Option<OsString>", long="opt", short="o", salias=["O"]),
                              F("oo", "Option<Option<OsString>>", long="oo", short="p", require_equals=True), F("v", "Vec<OsString>", long="vec", short="v", alias="vv"), F("w", "Option<Vec<OsString>>", long="wec", short="w", delim=","),
                              F("pos", "Vec<OsString>")]))
    out.append(Fam(d, [Scope(["-f", "--fl", "-r1", "--req=", "-o", "-O=2", "--oo", "-p=", "-v1", "--vv", "2", "-w3,,4"], n - 1 if tier == "quick" else n), Scope(["-v1", "-w", "a,b", "-ff", "x", "-vw", "--wec=", "--vv=", ","], n)]))
    ds = [",", ":", "=", "é", "-", " ", "a", "0", "😀"]
    vals = []
    for dl in ds: vals += ["", dl, dl * 2, "x" + dl, dl + "x", "x" + dl + "y", "x" + dl + dl + "y", "x" + dl + "y" + dl + "z"]
    fs = [F("d%d" % i, "Vec<OsString>" if i % 2 else "Option<Vec<String>>", long="d%d" % i, short=chr(65 + i), delim=dl, use_delim=(i == 0)) for i, dl in enumerate(ds)]
    out.append(Fam(Def("delim", S("Cli", fs + [F("p", "Vec<OsString>", delim=";")])), [Scope(["--d%d=%s" % (i, v) for i in range(len(ds)) for v in vals] + ["-%s%s" % (chr(65 + i), v) for i in range(len(ds)) for v in vals[::5]] + [";", "a;b", ";;", "x;", b"x;\xff"], 1),
                       Scope(["-A,", "-A", "x,y", "-Bx:", "--d3=éé", "a;b", ";", b"--d3=\xc3", "-E=a-b", "-I1😀2"], 3)]))
    # typed delimited lists: a bad fragment anywhere rejects the whole occurrence
    out.append(Fam(Def("delimty", S("Cli", [F("n", "Vec<u8>", short="n", delim=","), F("c", "Option<Vec<char>>", short="c", delim="-"), F("b", "Vec<bool>", short="b", delim="|")])),
                   [Scope(["-n1,2,3", "-n1,,2", "-n", "1,300", "1", "-n=", "-ca-b", "-c=a--b", "-c-", "-btrue|false", "-b|", "-n7"], 3)]))
    # ignore_case compares the fragments: it does not change what separates them
    lv = VE("Lx", ["Low", "High", ("Mix", "xo")])
    out.append(Fam(Def("delimic", S("Cli", [F("u", "Vec<Lx>", short="u", long="uu", delim="X", icase=True), F("l", "Option<Vec<Lx>>", short="l", delim="o", icase=True), F("c", "Vec<Lx>", short="c", delim=",", icase=True), F("s", "Vec<Lx>", short="s", delim="X")]), [lv]),
                   [Scope(["-%s%s" % (o, v) for o in "ulcs" for v in ["lowXhigh", "LOWXHIGH", "lowxhigh", "xoXXO", "XO", "XOXXO", "highoHIGH", "HIGHOHIGH", "HIGHoxo", "low,XO", "LOW,Hi", "X", "o", ""]] + ["--uu", "hiGHXlow"], 1), Scope(["-uHIGHXLOW", "--uu", "xo", "XO", "-lHIGH", "-lHIGHohigh", "-cXO,LOW", "-u=X"], 3)]))
    # duplicates across scopes and groups, long lists
    g = S("G", [F("one", OPT, long="one", short="1", glob=True), F("many", "Vec<u8>", short="m", glob=True)])
    out.append(Fam(Def("dupscope", S("Cli", [F("q", "bool", short="q", glob=True)], flatten=[("g", g)], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("own", OPT, short="o")], sub=("subc", True, E("D", [V("Deep")]))))])))),
                   [Scope(["-q", "--one=a", "-1b", "-m1", "-m2", "sub", "deep", "-o1"], n + 1 if tier != "quick" else n)]))
    # duplicates within bundles
    out.append(Fam(Def("cardbundle", S("Cli", [F("f", "bool", short="f"), F("g", "bool", short="g", salias="é"), F("o", "Option<OsString>", short="o"), F("v", "Vec<OsString>", short="v"), F("p", "Option<Option<OsString>>", short="p", require_equals=True)])),
                   [Scope([b"-" + w for w in words(["f", "g", "é", "o", "v", "p"], 1, 4)] + [b"-" + w + b"=1" for w in words(["f", "g", "p"], 1, 3)], 1), Scope([b"-" + w for w in words(["f", "g", "é", "p"], 1, 2)] + ["-o1", "-gv"], 3)]))
    lst = [b"-v%d" % i for i in range(300)]
    out.append(Fam(Def("long", S("Cli", [F("v", "Vec<OsString>", short="v"), F("d", "Vec<OsString>", short="d", delim=","), F("p", "Vec<OsString>"), F("f", "bool", short="f")])),
                   [Scope(["-v", "x", "-f", "p"], 2, lst), Scope(["-f", "p", "-v1"], 1, [b"p%d" % i for i in range(270)]), Scope(["-d" + ",".join(str(i) for i in range(k)) for k in (255, 256, 257, 300, 1025, 4100)], 1)]))
    return out

# ---------------------------------------------------------------------------------------------- C11
def c11(tier):
    out = []
    r = random.Random("c11")
    # every subset (and order) of up to five arguments, over many small random constraint graphs
    nd = 60 if tier == "quick" else 180
    for k in range(nd):
        m = r.choice([3, 4, 4, 5])
        fs = []
        ids = ["a", "b", "c", "d", "e"][:m]
        for i in ids:
            ty = r.choice(["bool", OPT, "Vec<u8>", "Option<Vec<u8>>", "u8", "Option<Option<u8>>"])
            kw = dict(short=i, glob=r.random() < .2)
            if ty.startswith("Option<Option"): kw["require_equals"] = True
            if ty == "u8" and r.random() < .6 or ty in (OPT, "Vec<u8>") and r.random() < .25: kw["default"] = "7"
            elif r.random() < .15 and ty != "u8": kw["required"] = True
            o = [x for x in ids if x != i]
            if r.random() < .4: kw["requires"] = r.sample(o, r.choice([1, 1, 2]))
            if r.random() < .4: kw["conflicts"] = r.sample(o, r.choice([1, 1, 2]))
            if r.random() < .15: kw["exclusive"] = True
            fs.append(F(i, ty, **kw))
        if r.random() < .35:
            ty = r.choice([OPT, "Vec<OsString>", "OsString", "Option<Vec<OsString>>"])
            how = r.choice(["", "", "last", "trailing"]) if "Vec" in ty else ""
            fs.append(F("pos", ty, conflicts=r.sample(ids, 1) if r.random() < .5 else [], requires=r.sample(ids, 1) if r.random() < .4 else [], exclusive=r.random() < .15, required=ty != "OsString" and r.random() < .1, last=how == "last", trailing=how == "trailing"))
            if fs[-1].required or r.random() < .3: r.choice(fs[:-1]).requires = ["pos"]
        sub = None
        tok = lambda f: "-%s" % f.ident if f.kind()[0] == "bool" else "-%s=1" % f.ident
        toks = [tok(f) for f in fs if f.short] + (["p"] if r.random() < .5 or len(fs) > m else []) + (["--"] if fs[-1].last else [])
        ln = len(fs) if len(fs) <= 4 else 4
        if r.random() < .35:
            inner = S("Sub", [F("x", "bool", short="x", requires=["y"] if r.random() < .5 else []), F("y", OPT, short="y", exclusive=r.random() < .3)])
            sub = ("cmd", r.random() < .7, E("C", [V("Sub", "struct", inner), V("Unit")])); toks += ["sub"]; ln = 4
            if r.random() < .5: toks.append("-x")
        fl = []
        if not any(f.exclusive for f in fs) and r.random() < .4:
            fl = [("grp", S("Grp", [F("u", "bool", short="u", requires=["w"] if r.random() < .5 else [], conflicts=["w"] if r.random() < .3 else []), F("w", OPT, short="w", required=r.random() < .3, exclusive=r.random() < .3)]))]
            toks += ["-u", "-w=1"]; ln = min(ln, 4)
        out.append(Fam(Def("cons%d" % k, S("Cli", fs, flatten=fl, sub=sub)), [Scope(toks, ln if tier != "quick" or len(toks) <= 6 else 3)]))
    # one argument with many requirements and conflicts at once, the others bare: every subset of what it names
    for k in range(24 if tier == "quick" else 80):
        ids = ["a", "b", "c", "d", "e"]
        glob = r.random() < .3
        fs = [F(i, r.choice(["bool", "bool", OPT, "Vec<u8>"]), short=i, glob=glob and r.random() < .5) for i in ids]
        rest = None
        if r.random() < .5: fs.append(rest := F("pos", r.choice([OPT, "Vec<OsString>", "Option<Vec<OsString>>"])))
        if rest is not None and rest.kind()[0] != "option":
            if r.random() < .6: rest.last = True
            elif r.random() < .4: rest.trailing = True
        names = [f.ident for f in fs]
        for f in r.sample(fs, r.choice([1, 1, 2])) + ([rest] if rest and r.random() < .5 else []):
            o = [x for x in names if x != f.ident]; r.shuffle(o)
            q, c = r.randint(0, 4), r.randint(0, 4)
            f.requires, f.conflicts = o[:q], (o[q:] if r.random() < .8 else o)[:c]
            if r.random() < .2: f.exclusive = True
        tok = lambda f: "-%s" % f.ident if f.kind()[0] == "bool" else "-%s=1" % f.ident
        toks = [tok(f) for f in fs if f.short] + (["p"] if rest else []) + (["--"] if rest and rest.last else [])
        out.append(Fam(Def("reqs%d" % k, S("Cli", fs)), [Scope(toks, 4 if len(toks) > 5 or tier == "quick" else 5), Scope(["-" + "".join(c) + "=1" * (i % 2) for n_ in (1, 2, 3, 4, 5) for i, c in enumerate(itertools.combinations([f.ident for f in fs if f.kind()[0] == "bool"], n_))] + toks, 2)]))
    # more than 64 constrained arguments, references far apart
    big = [F("b%d" % i, "bool", long="b%d" % i, requires=["b%d" % ((i * 37 + 11) % 100)] if i % 3 == 0 and (i * 37 + 11) % 100 != i else [], conflicts=["b%d" % ((i * 53 + 7) % 100)] if i % 3 == 1 and (i * 53 + 7) % 100 != i else []) for i in range(100)]
    out.append(Fam(Def("consbig", S("Cli", big)), [Scope(["--b%d" % i for i in (0, 3, 11, 22, 1, 60, 7, 64, 99, 63, 65, 66, 42)], 2), Scope(["--b%d" % i for i in range(100)], 1)]))
    # one argument naming very many others
    for m in (17, 33, 40, 65, 70, 129, 140, 248):
        al = ["a%d" % i for i in range(m)]
        half = m // 2
        aty = lambda i: ["bool", "bool", OPT, "Vec<u8>"][i % 4]
        at = lambda i: "--a%d" % i if i % 4 < 2 else "--a%d=1" % i
        order = list(al); r.shuffle(order)
        fs = [F(a, aty(i), long=a, glob=m == 40 and i % 2 == 0) for i, a in enumerate(al)]
        fs += [F("c", "bool", long="c", conflicts=al), F("r", "bool", long="r", requires=order), F("x", "bool", long="x", exclusive=True), F("h", OPT, long="h", requires=al[:half], conflicts=al[half:]), F("k", "Vec<u8>", long="k", conflicts=order[::-1], requires=["c"])]
        sub = ("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("z", "bool", long="z")]))])) if m in (17, 70) else None
        sc = [Scope([at(i) for i in range(m)], 1, [q]) for q in ("--c", "--x", "--h=1", "--k=1")] + [Scope(["--c", "--x"], 1, [at(i)]) for i in range(0, m, 3)]
        every = [at(i) for i in range(m)]
        sc += [Scope(["--r", "--c", "--x", "--h=1"], 2, every), Scope(["--h=1", at(half), at(m - 1)], 2, every[:half])]
        sc += [Scope(["--r"], 1, every[:j] + every[j + 1:]) for j in sorted({0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, half, 255, 256, m - 2, m - 1}) if j < m]
        if sub: sc += [Scope(["sub", "--z", "--c", at(m - 1)], 3, ["--x"]), Scope(["sub", at(0)], 2, every[1:] + ["--r"])]
        out.append(Fam(Def("manyref%d" % m, S("Cli", fs, sub=sub)), sc))
    return out

# ---------------------------------------------------------------------------------------------- C12
def c12(tier):
    out = []
    n = 3 if tier == "quick" else 4
    en = VE("Mode", ["Fast", "SlowMo", ("Off", "OFF")])
    fs = [F("s", "String", long="s", short="s", default="dflt"), F("n", "u8", long="n", short="n", default="007"), F("o", "Option<String>", long="o", default="odef"), F("v", "Vec<String>", long="v", short="v", default="x,y", delim=","),
          F("w", "Vec<String>", long="w", default="x,y"), F("ov", "Option<Vec<u8>>", long="ov", default="1:2", delim=":"), F("t", "u8", long="t", default_t=("40 + 2", ["42"], "42")), F("b", "bool", long="b", short="b", default_t=("true", ["true"], "true")),
          F("m", "Mode", long="m", default="slow-mo"), F("e", "Option<Mode>", long="e", default_t=("Mode::Off", ["Off"], "")), F("oo", "Option<Option<u8>>", long="oo", short="p", require_equals=True, default="5"), F("em", "OsString", long="em", default=""),
          F("pos", "String", default="pd")]
    d = Def("dflt", S("Cli", fs), [en])
    toks = ["--s=", "-s", "x", "--n=0", "--o=", "--v=", "-va", "--w=", "--ov=3", "--t=0", "-b", "--m=fast", "--e=fast", "--oo", "-p=0", "--em=q", ""]
    out.append(Fam(d, [Scope(toks, n)]))
    # `default_value_t` alone is the default of the value's type (of T in Option<T>), next to the same fields without it
    d = Def("dfltinh", S("Cli", [F("a", "u8", long="aa", short="a", default_t=(None, ["0"], "0")), F("s", "String", short="s", default_t=(None, [""], "")), F("b", "bool", short="b", default_t=(None, ["false"], "false")), F("oa", "Option<u8>", long="oa", default_t=(None, ["0"], "0")),
          F("os", "Option<String>", short="o", require_equals=True, default_t=(None, [""], "")), F("ob", "Option<bool>", long="ob", default_t=(None, ["false"], "false")), F("oi", "Option<i16>", long="oi", glob=True, default_t=(None, ["0"], "0")), F("ou", "Option<u8>", long="ou"), F("bb", "bool", short="c")],
          flatten=[("g", S("G", [F("gi", "Option<i64>", short="g", default_t=(None, ["0"], "0")), F("gs", "String", long="gs", default_t=(None, [""], ""))]))],
          sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("x", "Option<String>", short="x", default_t=(None, [""], "")), F("y", "Option<String>", short="y")])), V("Unit")]))))
    out.append(Fam(d, [Scope(["-a0", "--aa=1", "-s=", "-sq", "-b", "--oa=0", "-o=", "-o=z", "--ob=true", "--oi=5", "--ou=0", "-c", "-g7", "--gs=p", "sub", "unit", "-x=", "-y="], n)]))
    # integer literals of every size and radix are values of the field's type
    L = lambda nm, ty, lit, v, **k: F(nm, ty, default_t=(lit, [str(v)], str(v)), **k)
    d = Def("dfltlit", S("Cli", [L("a", "u64", "5_000_000_000", 5 * 10**9, long="a"), L("b", "i64", "-5_000_000_000", -5 * 10**9, short="b"), L("c", "u32", "3000000000", 3 * 10**9, short="c"), L("d", "u128", str(2**128 - 1), 2**128 - 1, long="d"),
          L("e", "Option<u64>", "0xFFFF_FFFF_FFFF", 2**48 - 1, long="e"), L("f", "i128", "-170141183460469231731687303715884105728", -2**127, short="f"), L("g", "i32", "-2147483648", -2**31, short="g"), L("h", "u8", "0b1111_1111", 255, short="H"), L("i", "i8", "-0o200", -128, short="i"),
          L("j", "usize", "18446744073709551615usize", 2**64 - 1, long="j", short="j"), L("k", "u8", "b'k'", 107, short="k"), L("l", "i64", "2147483648", 2**31, long="l", glob=True)],
          flatten=[("grp", S("G", [L("m", "i64", "-9223372036854775808", -2**63, long="m")]))], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [L("n", "u64", "1_0000_0000_0000", 10**12, short="n")]))]))))
    out.append(Fam(d, [Scope(["--a=1", "-b-2", "-c3", "--d=0", "--e=5", "-f1", "-g0", "-H7", "-i-1", "-j9", "-k1", "--l=2", "--m=-1", "sub", "-n1"], 2)]))
    # a field may have the name of an item that some default expression uses
    J = lambda nm, ty="u8", **k: F(nm, ty, default_t=("jobs()", ["42"], "42"), **k)
    d = Def("dflthyg", S("Cli", [J("jobs", long="jobs"), F("level", "Option<u8>", short="l", default_t=("level() + jobs() - level()", ["42"], "42")), F("s", "String", short="s", requires=["jobs"], default_t=("grp()", ["g"], "g")), F("b", "bool", short="b", conflicts=["level"], default_t=("subc()", ["true"], "true"))],
          flatten=[("grp", S("G", [F("hex", "u8", long="hex", default_t=("level()", ["7"], "7"))]))], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [J("jobs", long="jobs"), J("unhex", "Option<u8>", short="u")]))]))))
    out.append(Fam(d, [Scope(["--jobs=1", "-l2", "-s=x", "-b", "--hex=5", "sub", "-u3"], n)]))
    # default applied per place: flattened groups, globals given above or below, subcommands, together with constraints
    g = S("G", [F("lim", "u8", long="lim", default="10", requires=["x"]), F("x", "bool", short="x"), F("y", OPT, short="y", conflicts=["lim"], default="yy")])
    root = S("Cli", [F("glo", "u8", short="g", default="1", glob=True), F("gv", "Vec<u8>", short="v", default="1,2", delim=",", glob=True), F("gd", "bool", short="d", default_t=("true", ["true"], "true"), glob=True)], flatten=[("grp", g)],
             sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("own", "String", short="o", default="od"), F("glo", "u8", short="k", default="2"), F("p", "OsString", default="-")], flatten=[("g2", S("G2", [F("z", "u8", short="z", default="26", glob=True)]))], sub=("subc", True, E("D", [V("Deep")])))), V("Unit")])))
    out.append(Fam(Def("dflts", root), [Scope(["-g0", "-v9", "-v", "3,4", "-d", "--lim=0", "-x", "-y=", "sub", "-o=", "-k0", "-z1", "deep", "p"], n), Scope(["-g7", "-v5", "-d", "-k3", "-z0", "deep", "-o", "q", "r"], 3, ["sub"])]))
    # the same default in every kind x delimiter, and values equal to the default
    fs = []
    for i, (ty, dv, dl) in enumerate([("Vec<OsString>", "a", None), ("Vec<OsString>", "a", ","), ("Vec<OsString>", "", None), ("Vec<OsString>", "", ","), ("Vec<OsString>", ",", ","), ("Option<Vec<OsString>>", "a,b,c", ","), ("Option<Vec<OsString>>", "", None),
                                      ("Option<OsString>", "", None), ("OsString", "-x", None), ("i8", "-5", None), ("char", "é", None), ("Tag", "dtag", None), ("Raw", "", None), ("Option<Tag>", "q", None), ("Vec<Tag>", "q=r=s", "=")]):
        fs.append(F("k%d" % i, ty, long="k%d" % i, default=dv, delim=dl))
    out.append(Fam(Def("dfltk", S("Cli", fs)), [Scope(["--k%d=%s" % (i, v) for i in range(15) for v in ["", "a", "a,b", "-5"]], 1), Scope(["--k0=a", "--k1=b", "--k2=", "--k3=c", "--k4=x", "--k5=,", "--k6=z", "--k14=p=q", "--k14=r"], 3 if tier == "quick" else 3)]))
    # ignore_case does not touch the default; value given after/before; require_equals, required positional default
    en2 = VE("Lv", ["Low", "High"])
    d = Def("dfltic", S("Cli", [F("lv", "Lv", long="lv", short="l", icase=True, default="hIGh"), F("ls", "Vec<Lv>", long="ls", icase=True, delim=",", default="low,HIGH"), F("lx", "Option<Vec<Lv>>", long="lx", icase=True, delim="X", default="lowXLOWXHigh"), F("q", "Option<Lv>", long="q", require_equals=True, default_t=("Lv::Low", ["Low"], "")), F("p", "Vec<Lv>", default="high"), ]), [en2])
    out.append(Fam(d, [Scope(["-lLOW", "--lv", "high", "low", "--ls=HIGH,Low", "--ls=", "--lx=LOWXhigh", "--q=high", "--q", "LOW"], n)]))
    return out + c12_sizes(tier)

# ---------------------------------------------------------------------------------------------- C13
def c13(tier):
    out = []
    q = tier == "quick"
    d = Def("bytes", S("Cli", [F("f", "bool", short="f", long="f"), F("o", "Option<OsString>", short="o", long="o", salias=["é"], alias="é"), F("s", "Vec<String>", short="s", long="s", hyphen=True), F("p", "Option<PathBuf>", short="p", long="p", require_equals=True), F("pos", "Vec<OsString>")],
                          sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("t", "Vec<String>"), F("x", "Option<OsString>", short="x")]))]))))
    al = ["-", "=", "o", "s", b"\xc3", b"\xa9", b"\xff", "f", "q", b"\xe6\x88"]
    toks = list(words(al, 0, 3)) + [b"-" + w for w in words(["f", "o", "s", "=", b"\xc3", b"\xa9", b"\xff", b"\xf0\x9f\x98", b"\x80", b"\x00"], 3, 3)][::1 if not q else 2]
    toks += [b"--" + w for w in words(["o", "s", "p", "=", b"\xff", b"\xc3", b"\xa9", b"\n"], 1, 3)][::1 if not q else 2]
    sc = [Scope(toks, 1), Scope([b"-o", b"-s", b"-o\xff", b"--o=\xff", b"\xff", b"-\xff", b"-f\xc3", b"-f\xc3\xa9", b"\xc3", b"--\xc3\xa9=\xa9", b"sub", b"sub\xff", b"--", b"", b"-p=\xff", b"-s=\xff", b"-sz\xff"], 3 if q else 4),
          Scope([b"\xff", b"-x\xff", b"-\xff", b"ok", b"\xc3\xa9", b"\xed\xa0\x80", b"\xc0\x80", b"\xf8", b"--", b"-x"], 2, ["sub"])]
    # names with the replacement character against elements with invalid bytes at its place
    fd = Def("lossy", S("Cli", [F("a", "bool", long="a\ufffdb", short="\ufffd"), F("b", "Option<OsString>", long="\ufffd", short="b"), F("c", "Option<String>", long="é", short="?", glob=True), F("d", "Option<Lossy>", long="d", icase=True), F("pos", "Vec<OsString>")],
                                sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("x", "bool", short="x", long="\ufffd\ufffd")]))]))), [VE("Lossy", [("A", "\ufffd"), ("B", "a\ufffd"), ("C", "?")])])
    bad = [b"\xff", b"\xc3", b"\xe6\x88", b"\xf0\x9f\x98", b"\xed\xa0\x80", "\ufffd".encode(), b"?", b"\xef\xbf", b"\xef\xbf\xbd\xff"]
    ft = [p + x + q_ for x in bad for p, q_ in [(b"--a", b"b"), (b"--", b""), (b"--", b"=v"), (b"-", b""), (b"-b", b""), (b"-b=", b""), (b"--d=", b""), (b"--d=A", b""), (b"--" + x, b""), (b"", b""), (b"su", b""), (b"-x", b""), (b"--a", b"b=1")]]
    out.append(Fam(fd, [Scope(ft, 1), Scope(ft[::2], 1, ["sub"])]))
    # very long elements (runs of z are single symbols for the specification)
    L = [200, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 70000] + ([] if q else [1 << 20, (1 << 24) + 1])
    sc.append(Scope([p + b"z" * k + s for k in L for p, s in [(b"", b""), (b"--", b""), (b"-q", b""), (b"--o=", b""), (b"-o", b""), (b"-fo=", b"\xff"), (b"--s=", b"\xff"), (b"--", b"=v"), (b"-fq", b""), (b"--o", b"=")]], 1))
    sc.append(Scope([b"-o", b"--s", b"--", b"sub"] + [b"z" * k for k in L], 2))
    out.append(Fam(d, sc))
    # every single byte value, as an element, as a short name, as a value, inside a value
    every = [bytes([b]) for b in range(256) if b != 0] + [b"\0"]
    out.append(Fam(Def("allbytes", S("Cli", [F("o", "Option<OsString>", short="o"), F("t", "Option<String>", short="t"), F("v", "Vec<OsString>", short="v", delim=","), F("c", "Option<char>", short="c"), F("pos", "Option<OsString>")])),
                   [Scope([p + b for b in every for p in (b"", b"-", b"-o", b"-t=a", b"-v,", b"--", b"-c")], 1)]))
    # awkward sequences of UTF-8: all the ill-formed classes
    seqs = [b"\x80", b"\xbf", b"\xc0\xaf", b"\xc1\xbf", b"\xc2", b"\xc2\x41", b"\xdf\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xe2\x82", b"\xe2\x82\xac", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xee\x80\x80", b"\xef\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
            b"\xf0\x90\x80\x80", b"\xf0\x90\x80", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xfe", b"\xff\xff", b"\xe2\x28\xa1", b"\xe2\x82\x28", b"a\xe2\x82", b"\xe2\x82\xac\xe2\x82", b"\xc2\x80\xc2", "\ufeff".encode(), "\u0000".encode(), "e\u0301".encode()]
    out.append(Fam(Def("utf8", S("Cli", [F("o", "Vec<OsString>", short="o", long="o"), F("s", "Vec<String>", short="s", long="s"), F("k", "Vec<char>", short="k"), F("e", "bool", short="€"), F("f", "bool", short="f"), F("pos", "Vec<PathBuf>")])),
                   [Scope([p + x for x in seqs for p in (b"", b"-", b"-f", b"-o", b"--o=", b"-s", b"--s=x", b"-k", b"--", b"-fe")] + ["-€", "-f€s€", "-€f", b"-\xe2\x82\xacs\xe2\x82"], 1)]))
    return out + texts(("String", "OsString", "PathBuf", "Box<OsStr>"))

# ---------------------------------------------------------------------------------------------- C14
def c14(tier):
    out = []
    ints = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "NonZeroU8", "NonZeroI16"]
    edges = set()
    for t in ints:
        b = BASE[t]
        for v in (b.lo, b.lo - 1, b.lo + 1, b.hi, b.hi - 1, b.hi + 1): edges.add(str(v))
    odd = ["", "+", "-", "+-1", "--1", " 1", "1 ", "0x1", "1_000", "1.0", "1e1", "٣", "+0", "-0", "00", "-00", "000000000000000000000000000000000000000000000012", "+255", "+256", "-128", "١", b"1\xff", "½", "0b1", "1,2", "25x", "256x", "30x", "12345x", "-12x", "-129x", "x300", "99999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999", "9" * 60 + "x"]
    toks = []
    for i, t in enumerate(ints): toks += [tb("--k%d=" % i) + tb(v) for v in sorted(edges) + odd]
    out.append(Fam(Def("ints", S("Cli", [F("k%d" % i, "Option<%s>" % t, long="k%d" % i) for i, t in enumerate(ints)])), [Scope(toks, 1)]))
    # text-like types and user types with several conversions
    ty = ["String", "OsString", "PathBuf", "char", "bool", "Tag", "Raw", "Ver", "Box<OsStr>"]
    vals = ["v1", "v", "v007", "vv", "v1x", b"v1\xff", "", "a", "ab", "é", "😀", "e\u0301", "true", "false", "True", "TRUE", "1", "0", "yes", "!", "!a", "a!", " ", "\n", b"\xff", b"a\xff", b"\xc3", "-", "--", "=", "a=b", "wrong", "\u0000"]
    out.append(Fam(Def("texts", S("Cli", [F("k%d" % i, "Vec<%s>" % t, long="k%d" % i, short=chr(97 + i)) for i, t in enumerate(ty)] + [F("flag", "bool", long="flag")])),
                   [Scope([tb("--k%d=" % i) + tb(v) for i in range(len(ty)) for v in vals] + [b"-" + bytes([97 + i]) + tb(v) for i in range(len(ty)) for v in vals if tb(v)[:1] != b"="], 1)]))
    # a value enum that also has the other two conversions
    pref = VE("Pref", ["One", "Two"], extra="impl std::str::FromStr for Pref { type Err = &'static str; fn from_str(_: &str) -> Result<Self, &'static str> { Ok(Pref::One) } }\nimpl<'a> TryFrom<&'a OsStr> for Pref { type Error = String; fn try_from(_: &'a OsStr) -> Result<Self, String> { Ok(Pref::Two) } }\n")
    out.append(Fam(Def("prefer", S("Cli", [F("a", "Option<Pref>", long="a"), F("b", "Vec<Pref>", short="b", delim=","), F("c", "Option<Option<Pref>>", short="c", require_equals=True), F("p", "Option<Pref>")]), [pref]),
                   [Scope(["--a=one", "--a=two", "--a=three", "--a=", "-bone,two", "-bone,x", "-c=two", "-c=zwei", "-c", "two", "four", "One"], 2)]))
    # rename rules x identifiers, explicit names, ignore_case
    r = random.Random("c14")
    rules = [None, "kebab-case", "snake_case", "SCREAMING_SNAKE_CASE", "PascalCase", "camelCase", "lower", "UPPER", "verbatim"]
    ids = ["Red", "DarkBlue", "X", "X86_64", "HTTPServer", "r#Fn", "Foo2Bar", "lowerCamel", "Io", "ABc", "V10", "Snake_Case", "N0Op", "Grün", "snake_low", "SCREAM_ING", "r#Type", "IOError", "A1B2", "__Lead", "Trail_", "Dou__Ble", "HTTP2Go", "aB", "É"]
    for k, rule in enumerate(rules):
        t = VE("En", list(ids), rule)
        # all spellings anyone might expect of each identifier
        exp = set()
        for i in ids:
            u = unraw(i)
            w = [x for x in re.split("_+", re.sub(r"([a-z0-9ü])([A-Z])", r"\1_\2", re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", u))) if x]
            w2 = [x for x in u.split("_") if x]
            for ws in (w, w2, [u]):
                for j in ("", "-", "_"):
                    for f in (str.lower, str.upper, str.capitalize, lambda x: x): exp.add(j.join(f(x) for x in ws))
                exp.add((ws[0].lower() if ws else "") + "".join(x.capitalize() for x in ws[1:]))
            exp.add(i)
        toks = ["--e=" + x for x in sorted(exp)]
        if tier == "quick" and k not in (0, 4): toks = toks[k % 2::2]
        out.append(Fam(Def("ren%d" % k, S("Cli", [F("e", "Option<En>", long="e", short="e"), F("p", "Vec<En>")]), [t]), [Scope(toks + ["-e", "red", "Red", "", "x"], 1), Scope(["-e", "red", "RED", "Red", "x", "-eX"], 2)]))
    names = ["red", "re", "redd", "r", "", "-", "--", "-x", "0", "00", "a b", "é", "É", "名", "x=y", "=", "k_k", "k-k", "on", "off", "zz", "ab,c"]
    t = VE("Nm", [("V%d" % i, n) for i, n in enumerate(names)])
    probes = names + [n.upper() for n in names] + [n + "x" for n in names] + [n[:-1] for n in names] + ["V0", "v0", b"re\xff", b"\xff", "red ", " red", "Red"]
    out.append(Fam(Def("nms", S("Cli", [F("e", "Vec<Nm>", long="e"), F("i", "Vec<Nm2>", long="i", icase=True), F("d", "Vec<Nm>", long="d", delim=","), F("di", "Option<Vec<Nm2>>", long="di", delim="e", icase=True), F("du", "Vec<Nm2>", long="du", delim="N", icase=True), F("o", "Option<Option<Nm2>>", long="o", icase=True, require_equals=True), F("q", "Option<Nm2>", short="q", icase=True, hyphen=True)]),
                       [t, VE("Nm2", [("W%d" % i, n) for i, n in enumerate(names) if n != "É"])]),
                   [Scope([tb("--%s=" % k) + tb(v) for k in ("e", "i", "d", "di", "du", "o") for v in probes] + ["--du=" + x for x in ("reNRE", "renRE", "oNN0", "ONN00", "REDNOFFNx", "REDNOFFN", "kNK")] + ["-q" + p for p in ["RED", "-X", "É", "é", "K_K", "X=Y"]] + ["--d=red,re", "--d=ab,c", "--di=ron", "--di=0e00", "--di=OFFEON", "--di=OFFeON", "--o", "-q"], 1)]))
    # texts that are easily confused with a declared name
    t1, t2 = VE("Nr", [("N%d" % i, n) for i, n in enumerate(NEARNAMES)]), VE("NrI", [("N%d" % i, n) for i, n in enumerate(NEARNAMES) if not re.search("[A-Z]", n)])
    out.append(Fam(Def("nearenum", S("Cli", [F("e", "Option<Nr>", long="e"), F("i", "Option<NrI>", long="i", icase=True)]), [t1]  + [t2]),
                   [Scope([o + x for o in (b"--e=", b"--i=") for n in NEARNAMES for x in near(n)][::1 if tier != "quick" else 2], 1)]))
    # ignore_case with many variants in awkward order, ASCII only
    t = VE("Ic", ["Alpha", "AlphaBeta", "Alp", "Al", "Be", ("Sz", "straße"), ("Um", "größe"), ("Sym", "a_b-c"), ("Num", "1a"), ("At", "`@[{"), "Zulu"])
    out.append(Fam(Def("icase", S("Cli", [F("i", "Vec<Ic>", long="i", short="i", icase=True), F("s", "Vec<Ic>", long="s")]), [t]),
                   [Scope(["--%s=%s" % (o, v) for o in "is" for v in ["alpha", "ALPHA", "aLpHa", "alpha-beta", "Alpha-BETA", "alphabeta", "al", "AL", "alp", "a", "be", "BE", "straße", "STRAßE", "STRASSE", "strasse", "GRÖßE", "größe", "GRößE", "A_B-C", "a-b-c", "1A", "1a", "`@[{", "@@[{", "`@{{", "`@[[", "ZULU", "zulu", "", "ſ", "K"]], 1)]))
    return out + c14_sizes(tier) + texts(("Tag", "Raw", "Ver", "i16", "char", "bool", "NonZeroU8"))

# ---------------------------------------------------------------------------------------------- C15
def c15(tier):
    out = []
    n = 3
    en = VE("Mode", ["Fast", ("Slow", "slow mode"), "Mid"])
    g = S("G", [F("gx", "u8", long="gx", short="x", value_name="GX", default="1"), F("gy", "Option<Mode>", long="gy", require_equals=True), F("gr", "bool", long="gr", requires=["gneed"]), F("gneed", OPT, short="N", value_name="NEED ED")])
    sub = S("Sub", [F("num", "i8", long="num", short="n", negnum=True, value_name="N"), F("m", "Option<Mode>", long="mode"), F("p", "u8"), F("rest", "Vec<u8>", delim=",")])
    root = S("Cli", [F("only_short", "Option<u8>", short="s"), F("both", "Option<u8>", long="both-names", short="é", value_name="值"), F("flag", "bool", long="flag", short="f", conflicts=["only_short"]), F("oo", "Option<Option<u8>>", long="oo", value_name="W"), F("list", "Vec<char>", long="list", delim=",", glob=True),
                     F("tag", "Option<Tag>", short="t", value_name="")], flatten=[("g", g)], sub=("cmd", False, E("C", [V("Sub", "struct", sub), V("Unit")])))
    root.fields[3].require_equals = True
    d = Def("blame", root, [en])
    out.append(Fam(d, [Scope(["-s300", "-s", "--both-names=x", "-é", "-f", "--flag=1", "--oo=q", "--list=a,bc", "-t!", "--gx=", "--gy", "--gy=slow", "-x-1", "--nope", "--nope=1", "-Z", "-fZ", "bad", "unit", "--gr", "-ff", "sub"], 2 if tier == "quick" else 3),
                       Scope(["-n", "-n200", "--num=1", "--mode=slow mode", "--mode=slow", "7", "x", "1,x", "--list=bb", "-é=9", "-s1", "-f", "-", "--", "300"], n, ["sub"])]))
    # the first bad one wins, whatever follows: all pairs/triples of bad elements
    bad = ["--nope", "-Z", "-s300", "--both-names", "-t!", "--flag=", "sub2", "--list=xx", "--oo=300", "-h", b"\xff", b"-\xff", "--gy=é", "-fs", "-ff"]
    out.append(Fam(Def("blame2", root, [en]), [Scope(bad + ["-s1", "-f"], 2 if tier == "quick" else 3, tail=bad[:6])]))
    # missing/conflicting ones at the end, at any level
    lv2 = S("Lv2", [F("deep", "u8", long="deep-opt", short="d"), F("dc", "bool", long="dc", conflicts=["de"]), F("de", "bool", long="de")])
    lv1 = S("Lv1", [F("mid", "u8", long="mid-opt", short="m", glob=True), F("ex", "bool", long="ex", exclusive=True), F("p", "OsString")], sub=("subc", False, E("C2", [V("Lv2", "struct", lv2)])))
    d = Def("blame3", S("Cli", [F("top", "u8", long="top-opt", glob=True, value_name="TOP"), F("need", "bool", long="need", requires=["opt", "vec"]), F("opt", OPT, long="opt"), F("vec", "Vec<u8>", long="vec", value_name="VEC"), F("pos", "Option<u8>")],
                        flatten=[("fl", S("Fl", [F("fr", "u8", long="fr"), F("fv", "Vec<u8>", short="V", required=True)]))], sub=("subc", False, E("C1", [V("Lv1", "struct", lv1)]))))
    out.append(Fam(d, [Scope(["--top-opt=1", "--need", "--opt=1", "--vec=1", "5", "--fr=1", "-V1", "lv1", "-m1", "w", "lv2", "-d1", "--dc", "--de", "--ex"], 3), Scope(["--need", "-m1", "w", "lv2", "-d1", "--dc", "--de", "--ex", "--top-opt=1"], 4 if tier == "quick" else 5, ["--fr=1", "-V1", "--opt=1", "lv1"])]))
    # reported text: verbatim
    txt = ["x y", "", '"', "'", "\\", "\n", "\t", "\u0007", "é", "\u200b", "\U0001F600", b"\xff", b"a\xffb", "{}", "{0}", "%s", "\x7f", "a" * 40, "\u0000", "\r", "`", "e\u0301"]
    out.append(Fam(Def("verbatim", S("Cli", [F("n", "Option<u8>", long="num", short="n"), F("m", "Option<Mode>", long="mode"), F("im", "Vec<Mode2>", long="imode", icase=True, delim=","), F("f", "bool", long="flag", short="f"), F("p", "Option<u8>")], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [])), ]))), [en, VE("Mode2", ["Fast", ("Slow", "slow mode")])]),
                   [Scope([tb("--imode=") + tb(t) for t in txt + ["FAST", "FASTER", b"A\xffB", b"FAST\xff", b"\xffZ,fast", b"fast,Q\xff", "fast,SLOWLY", "fast,Slow Mode,X", "ÉÀ"]] + [p + tb(t) for t in txt for p in (b"", b"--num=", b"-n", b"--mode=", b"--flag=", b"--", b"-f=", b"-")], 1), Scope([tb(t) for t in txt], 1, ["7"]), Scope([tb(t) for t in txt], 1, ["sub"]), Scope([tb(t) for t in txt], 1, ["--", "1"])]))
    # long offenders are reported whole
    L = [200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8200, 65535, 65536, 65537, 70000]
    z = lambda k: b"z" * k
    fs = [F("n", "Option<u8>", long="num", short="n"), F("m", "Vec<Mode>", long="mode", delim=","), F("t", "Option<Ver>", long="ver"), F("f", "bool", long="flag", short="f"), F("l", "Vec<u8>", long="list", delim=","), F("s", OPT, long="str"), F("e", "Option<u8>", long="eq", short="e", require_equals=True)]
    offs = [p + z(k) + q for k in L for p, q in [(b"", b""), (b"--", b""), (b"--", b"=v"), (b"-f=", b""), (b"--flag=", b""), (b"--num=", b""), (b"-n", b"9"), (b"--mode=", b""), (b"--mode=fast,", b",fast"), (b"--ver=", b""), (b"--list=1,", b""), (b"--num=", b"\xff"), (b"-\xff", b""), (b"--", b"\xff"), (b"\xff", b""), (b"--str=", b"\xfe"), (b"-e", b""), (b"--flag=\xff", b"")]]
    for nm, extra, sub in (("long_pos", [F("p", "Option<u8>")], None), ("long_none", [], None), ("long_sub", [], ("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("q", "Option<u8>")]))])))):
        out.append(Fam(Def(nm, S("Cli", [copy.copy(f) for f in fs] + extra, sub=sub), [en]), [Scope(offs, 1), Scope(offs[::7], 1, ["-f"])] + ([Scope(offs[::3], 1, ["sub"])] if sub else [Scope(offs[::3], 1, ["--"])])))
    return out + c15_sizes(tier)

# ---------------------------------------------------------------------------------------------- C16
def c16(tier):
    out = []
    n = 4 if tier == "quick" else 5
    sub = S("Sub", [F("need", "u8", short="n"), F("x", "bool", short="x"), F("any", "Option<OsString>", short="a", hyphen=True), F("t", "Vec<OsString>", trailing=True)], sub=("subc", True, E("C2", [V("Deep", "struct", S("Deep", [F("o", OPT, long="opt")])), V("Help")])))
    root = S("Cli", [F("req", "OsString", long="req", short="r"), F("f", "bool", short="f"), F("any", "Vec<OsString>", long="any", hyphen=True), F("pos", "Option<OsString>")], sub=("subc", True, E("C", [V("Sub", "struct", sub), V("Two")])))
    out.append(Fam(Def("help", root), [Scope(["-h", "--help", "-fh", "-hf", "-r", "--any", "sub", "deep", "x", "--"], n), Scope(["-h", "--help", "-xh", "-a", "-n", "deep", "--opt", "v", "--nope", "help", "--", "-nh"], n - 1, ["sub"]),
                                       Scope(["--help=", "--help=x", "-h=", "-hx", "-h=1", "-hh", "-fhZ", "-Zh", "-h\u00e9", b"-h\xff", "--hel", "--helpp", "--Help", "-H", "-ah", "-rh", "--req=-h", "help", "--req", "-f", "two", "---help", "--help "], 2)]))
    # user-defined -h and/or --help, at various scopes
    variants = [("hs", [F("host", OPT, short="h", long="host")], []), ("hl", [F("hl", "bool", long="help")], []), ("hb", [F("hb", "bool", long="help", short="h")], []), ("hg", [F("hg", "bool", short="h", long="hg", glob=True)], []), ("hsub", [], [F("h2", "bool", short="h")]),
                ("hlsub", [], [F("h2", OPT, long="help")]), ("hgl", [F("hg", OPT, long="help", short="H", glob=True)], [F("h2", "bool", short="h")]), ("hal", [F("q", "bool", long="q", alias="help", salias=["h"])], []), ("hn", [F("hn", "bool", short="h", long="help")], [F("z", "bool", short="z")])]
    for nm, a, b in variants:
        d = Def(nm, S("Cli", [F("f", "bool", short="f")] + a, sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("g", "bool", short="g")] + b, sub=("subc", True, E("C2", [V("Deep")])))), V("Help")]))))
        out.append(Fam(d, [Scope(["-h", "--help", "-fh", "-gh", "sub", "deep", "v", "--help=1", "help", "--nope"], n if tier != "quick" else 3)]))
    fl = S("G", [F("hh", OPT, short="h")])
    out.append(Fam(Def("hflat", S("Cli", [F("v", "bool", short="v")], flatten=[("g", fl)], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("p", "Vec<OsString>")], flatten=[("k", S("K", [F("hhh", "bool", long="help")]))]))])))), [Scope(["-h", "--help", "-vh", "-vhx", "sub", "x", "--", "-h1"], n)]))
    return out + c16_sizes(tier)

# ---------------------------------------------------------------------------------------------- C19: a broad mix
def c19(tier):
    pick = []
    for f in (c01, c02, c03, c04, c05, c06, c07, c08, c10, c12, c14, c15, c16):
        fams = f("quick")
        for x in fams:
            ntok = sum(len(s.alpha) ** s.n for s in x.scopes)
            if ntok <= 4500 and len(x.d.root.fields) < 60:
                x.d.name = f.__name__ + "_" + x.d.name
                pick.append(x)
    # more than 32, 64 and 128 arguments in one command, and every kind of error about the ones far behind
    big = []
    for n in (40, 70, 140):
        fs = [F("b%d" % i, ["bool", "Option<u8>", "Vec<u8>", "Option<Mo>"][i % 4], long="b%d" % i, glob=i % 11 == 3, requires=["b%d" % (i - 1)] if i % 9 == 4 else [], conflicts=["b%d" % (i - 2)] if i % 9 == 8 else []) for i in range(n)]
        fs[n - 5].required = fs[n - 5].kind()[0] != "bool"; fs[n - 6].required = fs[n - 6].kind()[0] != "bool"
        fs += [F("p1", "u8"), F("p2", "Option<Mo>")]
        d = Def("many%d" % n, S("Cli", fs, flatten=[("g", S("G", [F("g%d" % i, "Option<u8>", long="g%d" % i, short=chr(97 + i)) for i in range(5)]))], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("x%d" % i, "Option<u8>", long="x%d" % i) for i in range(n)]))]))), [VE("Mo", ["On", "Off"])])
        at = sorted({i for k in (0, 30, 62, 126) for i in range(k, k + 6) if i < n} | set(range(n - 8, n)))
        big.append(Fam(d, [Scope(["--b%d%s" % (i, v) for i in at for v in ("", "=", "=x", "=1", "=on")] + ["--b%d" % i for i in range(n)] + ["--x%d=q" % i for i in range(n)], 1),
                           Scope(["--b%d%s" % (i, ["", "=1", "=2", "=on"][i % 4]) for i in at] + ["7", "q", "on", "-e=q", "-e=1", "sub", "--g4"], 2),
                           Scope(["--x%d%s" % (i, v) for i in at for v in ("", "=q", "=1")], 1, ["sub"])]))
    return pick + big

# ---------------------------------------------------------------------------------------------- C21
def c21(tier):
    out = []
    n = 4 if tier == "quick" else 5
    d = Def("order", S("Cli", [F("f", "bool", short="f", requires=["o"]), F("o", OPT, long="opt", short="o", conflicts=["v"]), F("v", "Vec<u8>", short="v", delim=","), F("k", "u8", short="k", default="3"), F("oo", "Option<Option<u8>>", short="p", require_equals=True), F("pos", "Vec<OsString>")], sub=("subc", True, E("C", [V("Sub", "struct", S("Sub", [F("s", OPT, short="s"), F("q", "Option<OsString>")]))]))))
    d.root.fields[0].glob = d.root.fields[1].glob = d.root.fields[2].glob = True
    out.append(Fam(d, [Scope(["-f", "-o1", "--opt", "-v1", "-v2", "-k4", "-p", "x", "-p=1", "sub"], n), Scope(["-f", "-o1", "-v1", "-v2", "-s1", "-s", "x", "y"], n, ["sub"])]))
    g = S("G", [F("a", "bool", short="a"), F("b", OPT, short="b", requires=["a"]), F("c", "Vec<OsString>", short="c")])
    d = Def("order2", S("Cli", [F("x", OPT, short="x", hyphen=True), F("y", "Option<i8>", short="y", negnum=True), F("z", "bool", short="z", default_t=("true", ["true"], "true")), F("p1", "Option<OsString>"), F("p2", "Option<OsString>"), F("l", "Vec<OsString>", last=True)], flatten=[("g", g)]))
    out.append(Fam(d, [Scope(["-x", "-a", "-b1", "-c1", "-c", "-y", "-1", "-z", "v", "w"], n), Scope(["-ax", "-za", "-zy-1", "-b=", "v", "--", "-c=2"], n)]))
    return out + c21_sizes(tier)

# ---------------------------------------------------------------------------------------------- C17
def c17(tier):
    out = []
    D2 = ["First line", "second line", "", "  New paragraph.  ", "", ""]
    g2 = S("G2", [F("deepest", OPT, long="deepest", doc="Deepest doc"), F("hidden_deep", OPT, long="hidden-deep", hide=True, doc="never shown 3")])
    g1 = S("G1", [F("inner", "u8", long="inner", doc="Inner doc"), F("z", "bool", short="z", default_t=("true", ["true"], "true"))], flatten=[("g2", g2)], about="About of a flattened struct is not shown", after="nor this")
    en = VE("Color", ["Red", ("Green", "g,reen"), "DarkBlue"], "snake_case")
    sub = S("Sub", [F("a", OPT, long="aa", doc=D2), F("file", "OsString", doc="The file"), F("rest", "Option<Vec<OsString>>", value_name="REST", doc="The rest")], about=["Sub about", "", "Sub details"], after="Sub after")
    lng = "very-long-subcommand-name-that-exceeds-the-padding-of-the-column"
    e = E("C", [V("Sub", "struct", sub), V("Tup", "tuple", S("Tup", [F("x", OPT, short="x")], about="Tuple struct about", long_about=True)),
                V("Unit", about=["Unit about", "more of it"]), V("NoDoc"), V("VeryLongSubcommandNameThatExceedsThePaddingOfTheColumn", about="long one"), V("LongAbout", long_about="LA first\nLA second", after="LA after"),
                V("DescInh", long_about=True, about="ignored doc"), V("Deeper", "struct", S("Deeper", [F("gg", "bool", long="gg", glob=True)], sub=("subc", False, E("C2", [V("Leaf", about="Leaf about"), V("Leaf2", "struct", S("Leaf2", [F("q", "u8", short="q", hide=True)]))]))))])
    root = S("Cli", [F("verbose", "bool", short="v", long=True, doc=D2, glob=True), F("req", "u8", long="req", short="r", doc="Req doc"), F("req2", "u8", short="R"), F("req3", "u8", long=True, require_equals=True, value_name="A B"),
                     F("reqo", OPT, long=True, required=True), F("hid", "u8", long="hid", hide=True, doc="never shown 1"), F("oo", "Option<Option<u8>>", long=True, require_equals=True, doc="opt value"),
                     F("color", "Color", long=True, default_t=("Color::Green", ["Green"], ""), doc="Color doc"), F("n", "i8", long="num", default="007"), F("m", "u8", short="m", default_t=("40 + 2", ["42"], "42")),
                     F("t", "String", short="t", default_t=('"a\\nb {x}".to_string()', ["a\nb {x}"], "a\nb {x}"), doc="multi-line default"), F("d", "u16", long="dd", default_t=(None, ["0"], "0")), F("li", "Vec<u8>", long="li", delim=",", default="1,2"),
                     F("ch", "char", long="ch", default_t=("'{'", ["{"], "{")), F("é", OPT, short="é", long="eacute"), F("mreq", "u8", short="我", long="mreq"), F("vec", "Vec<u8>", long="vec"), F("vecreq", "Vec<u8>", long="vecreq", required=True),
                     F("braces", OPT, long="br{}ces", value_name="{}", doc="{0} {:?} {{"), F("p1", "OsString", doc="Pos one"), F("hp", "Option<OsString>", hide=True, doc="never shown 2"), F("p2", "Option<u8>", default="5", doc="Pos two")],
             flatten=[("g1", g1)], sub=("subc", True, e), about=["Root about", "continues", "", "{curly} paragraph"], after="After\n\n  text {x}\n")
    out.append(Fam(Def("help17", root, [en]), []))
    # positional shapes in the usage line
    for nm, fs in [("u1", [F("l", "Vec<OsString>", last=True, required=True, doc="last"), F("a", "OsString"), F("x", OPT, long="x")]), ("u2", [F("a", "Option<OsString>"), F("v", "Vec<OsString>", required=True)]),
                   ("u3", [F("a", "OsString"), F("v", "Option<Vec<OsString>>"), F("l", "Option<Vec<OsString>>", last=True)]), ("u4", [F("a", "OsString", hide=True), F("v", "Vec<OsString>", hide=True), F("b", "bool", short="b", hide=True)]),
                   ("u5", [F("t", "Vec<OsString>", trailing=True)]), ("u6", []), ("u7", [F("b", "u8", short="b"), F("c", "u8", long="c")]), ("u8", [F("vl", "Vec<OsString>", last=True, hide=True), F("v", "u8", long="v")])]:
        out.append(Fam(Def(nm, S("Cli", fs)), []))
    out.append(Fam(Def("u9", S("Cli", [F("a", "bool", long="a")], flatten=[("g", S("G", [F("b", OPT, long="b", hide=True)])), ("h", S("H", [F("c", "u8", long="c", short="c")], about="hidden about"))], order=["h", "a", "subc", "g"], long_about=True, sub=("subc", False, E("C", [V("X", about=["", "second"]), V("Y", long_about="")])))), []))
    out[-1].d.root.flatten.reverse()
    # own arguments named like the help request: their entries are shown like any other, and render_long_help still renders
    for i, hf in enumerate([F("help", "bool", long=True, short=True, doc="Own help"), F("help", "u8", long=True), F("hh", OPT, short="h", doc="Own h"), F("q", "bool", long="quiet", alias="help", salias="h", glob=True),
                            F("help", "Option<Option<u8>>", long=True, require_equals=True, exclusive=True), F("he", "Vec<String>", long="help", required=True, glob=True)]):
        inner = S("Sub", [F("y", "u8", short="y")], flatten=[("k", S("K", [F("hk", "bool", short="h") if i % 2 else F("hl", OPT, long="help")]))])
        if i == 4: root = S("Cli", [hf, F("p", "u8")], about="About of own", after="After", sub=("subc", False, E("C", [V("Sub", "struct", inner, about="Sub about"), V("Unit")])))
        else: root = S("Cli", [F("x", "u8", long="x"), F("p", "Option<u8>")] + ([hf] if i % 2 else []), flatten=[] if i % 2 else [("g", S("G", [hf]))], about="About of own", after="After", sub=("subc", i % 3 == 0, E("C", [V("Sub", "struct", inner, about="Sub about"), V("Unit")])))
        out.append(Fam(Def("ownhelp%d" % i, root), []))
    # which sections appear and what the usage line says, for every combination of what the container and two groups hold
    bag = {"none": [], "opt": ["o"], "req": ["r"], "req2": ["r", "r"], "hid": ["h"], "hreq": ["H"], "mix": ["r", "o"], "two": ["o", "o"]}
    def bagof(k, pre):
        fs = []
        for j, c in enumerate(bag[k]):
            kw = dict(long="%s%d" % (pre, j)) if j % 2 == 0 else dict(short=pre[0])
            fs.append(F("%s%d" % (pre, j), {"o": OPT, "r": "u8", "h": OPT, "H": "u8"}[c], hide=c in "hH", doc="doc %s%d" % (pre, j), **kw))
        return fs
    combos = list(itertools.product(bag, repeat=3))
    random.Random("c17").shuffle(combos)
    for i, (a, b, c) in enumerate(combos[:90 if tier == "quick" else 512]):
        g1, g2 = S("G1", bagof(b, "b")), S("G2", bagof(c, "c"))
        nest = i % 3 == 2
        if nest: g1.flatten = [("inn", g2)]
        pos = [[], [F("p", "u8")], [F("p", "Option<OsString>"), F("l", "Vec<OsString>", last=True)], [F("p", "u8", hide=True)]][i // 3 % 4]
        root = S("Cli", bagof(a, "a") + pos, flatten=[("g1", g1)] + ([] if nest else [("g2", g2)]), sub=[None, ("subc", True, E("C", [V("Sub", "struct", S("Sub", []))])), ("subc", False, E("C", [V("Sub")]))][i % 3 if i % 2 else 0], about="About" if i % 5 == 0 else [])
        if i % 4 == 1: root.order = [g for g, _ in root.flatten] + [f.ident for f in root.fields] + (["subc"] if root.sub else [])
        out.append(Fam(Def("sec%d" % i, root), []))
    return out + c17_sizes(tier)

# ---------------------------------------------------------------------------------------------- C20
def c20(tier):
    sub = S("Sub", [F("x", "Option<u8>", short="x", doc="x doc"), F("names", "Vec<OsString>")], about="Sub about")
    d = Def("proc1", S("Cli", [F("f", "bool", short="f", long=True, doc="Flag"), F("req", "u8", long="req", short="r", default="3"), F("tag", "Option<Tag>", long="tag"), F("file", "Option<OsString>")], sub=("subc", True, E("C", [V("Sub", "struct", sub), V("Other")])), about="About", after="After"))
    out = [Fam(d, [])]
    out[0].calls = [[], ["--help"], ["-h"], ["-f"], ["-fh"], ["sub", "--help"], ["sub", "-x1", "a"], ["sub", "-xq"], ["--req", "300"], ["--nope"], ["--tag=!"], ["sub", "--", "--help"], [b"\xff"], [b"-f\xff"], ["-r"], ["other", "x"], ["--", "sub"], ["-f", "-f"]]
    d2 = Def("proc2", S("Cli", [F("need", "OsString"), F("v", "Vec<u8>", short="v")]))
    out.append(Fam(d2, [])); out[1].calls = [[], ["x"], ["x", "-v1"], ["-v"], [""], ["x", "y"]]
    d3 = Def("proc3", S("Cli", [], sub=("subc", False, E("C", [V("Sub"), V("Run", "tuple", S("Run", [F("a", "bool", short="a")], about="Run about"))]))))
    out.append(Fam(d3, [])); out[2].calls = [[], ["sub"], ["run", "-a"], ["run", "-h"], ["no"], ["-h"]]
    d4 = Def("proc4", S("Cli", [F("help", "bool", long="help", short="h"), F("e", "Option<Col>", long="e")]), [VE("Col", ["Red", "Blue"])])
    out.append(Fam(d4, [])); out[3].calls = [["--help"], ["-h"], ["--e", "x"], ["--e=red"]]
    return out

# ---------------------------------------------------------------------------------------------- C22
def c22(tier):
    """definitions with their argvs (argv[0] included) for several calls at once"""
    out = []
    def add(d, calls):
        f = Fam(d, []); f.calls = [[tb(x) for x in a] for a in calls]; out.append(f)
    sub = S("Sub", [F("x", "Option<Ver>", short="x"), F("names", "Vec<Tag>", delim=",")], sub=("subc", True, E("D", [V("Deep", "struct", S("Deep", [F("t", "Vec<OsString>", trailing=True)]))])))
    add(Def("calls1", S("Cli", [F("f", "bool", short="f", long=True, glob=True), F("tag", "Vec<Tag>", long="tag", short="t", delim=","), F("raw", "Option<Raw>", long="raw"), F("g", "Option<u8>", long="gg", glob=True, default=None), F("oo", "Option<Option<Tag>>", long="oo", require_equals=True)],
                      flatten=[("fl", S("Fl", [F("fv", "Option<Ver>", long="fv"), F("req", "Tag", long="req", default="dd")]))], sub=("subc", True, E("C", [V("Sub", "struct", sub), V("Unit")])), about="About")),
        [["p", "--tag", "a", "-f"], ["a-program-with-a-longer-name", "-h"], ["/usr/bin/another-program", "unit", "--help"], ["q" * 70, "sub", "-h"], ["q" * 71, "--help"], ["q", "--tag=a,b", "sub", "-xv1"], ["p", "--tag=!"], ["./x/r", "sub", "--help"], ["s t", "-fh"], ["p", "sub", "n1,n2", "deep", "-a"], ["p", "--raw=r", "--raw=s"], ["p", "--nope"], ["p", "unit", "-f", "-f"], ["p"],
         ["p", "--fv", "v1", "--req=x"], ["p", "--fv=1"], ["p", "sub", "--gg=300"], ["p", "-t", "x", "-ty"], ["p", "--oo=", "--oo"], ["other", "-f", "sub", "--gg", "3"], ["p", "--req", "!"], ["zz", "--tag"], ["p", "sub", "a", "--"]])
    add(Def("calls2", S("Cli", [F("need", "Tag"), F("v", "Vec<Ver>", short="v"), F("m", "Option<Mode>", long="mode", icase=True), F("rest", "Vec<Tag>", last=True), F("c", OPT, long="c", conflicts=["v"])]), [VE("Mode", ["Fast", ("Slow", "slow mode")])]),
        [["p", "x"], ["p", "x", "-vv1", "-vv2"], ["p", "x", "--", "a", "b"], ["p", "--mode=FAST", "y"], ["p", "--mode", "bad"], ["p", "-v", "1"], ["p", "!"], ["p"], ["p", "x", "y"], ["b/p", "-h"], ["p", "x", "--c=1", "-vv1"], ["p", "x", "--c=1"]])
    add(Def("calls3", S("Cli", [F("a", "bool", short="a"), F("b", "bool", short="b"), F("o", "Option<Tag>", short="o"), F("tr", "Vec<Tag>", trailing=True)])),
        [["p", "-ab"], ["p", "-abox"], ["p", "-ao", "-b"], ["p", "t", "-a", "--"], ["p", "-aa"], ["q/p", "-abh"], ["p", "-o=", "x"], ["p", "-z"], ["p", "", "t"], [b"\xff", b"-b\xff"]])
    deep = deep_cmds(4, lambda i: ([F("g%d" % i, "Vec<Tag>", long="g%d" % i, glob=True), F("n%d" % i, "Option<Tag>", long="n")], []))
    add(Def("calls4", deep), [["p", "--n=0", "down", "--n=1", "down", "--n=2", "--g0=x"], ["p", "down", "down", "leaf"], ["p", "down", "--g1=a", "down", "--g0=b"], ["p", "down", "down", "--help"], ["p", "leaf"], ["p", "--g0=1", "--g0=2"], ["p", "down", "--n=!"]])
    return out

def noticing(fam, name=None):
    """the same definition with value types whose conversions, and default expressions whose evaluations, are noticed"""
    f = copy.deepcopy(fam)
    f.d.name = (name or f.d.name) + "_ev"
    done = set()
    for st in structs_of(f.d.root):
        for x in st.fields:
            if id(x) in done: continue
            done.add(id(x)); x.lg = True
            x.ty = re.sub(r"\bString\b", "LStr", re.sub(r"\b(OsString|PathBuf)\b", "LOs", x.ty))
    return f

def texts(types):
    """texts of all sorts, for each way to convert and each way to give them"""
    out = []
    vals = ["", " ", "/", "/x", "/a/b", "//", "./x", "../y", "~", "~/x", "@f", "@", "#", "%s", "{}", "$HOME", "*", "?", "a=b", "=", "==", ",", ":", ";", "0", "007", "-", "-1", "--", "--x", "-x", "+", "v1", "V1", "v12", "!", "x!", "true", "null", "\t", "\n", "a\nb", "\\", "'", '"', '"q"', "x" * 40, "z" * 300, "z" * 5000, "\u00e9", "\u65e5\u672c", "http://h/p?q", "a b", " a", "a ", "A", "file.txt", "C:\\x", "a/b", "x/", "\x7f", b"\xff", b"/\xff", b"a\x80"]
    fs = lambda ty: [F("n", "Option<%s>" % ty, long="nn", short="n", hyphen=True), F("w", "Vec<%s>" % ty, long="ww", short="w", hyphen=True), F("q", "Option<Option<%s>>" % ty, long="qq", require_equals=True), F("k", "Vec<%s>" % ty, long="kk", delim=":", hyphen=True), F("p", "Option<%s>" % ty), F("r", "Option<Vec<%s>>" % ty, trailing=True)]
    every = vals
    for ty in types:
        vals = [v for v in every if ty != "char" or tb(v)[:2] != b"zz"]      # a run is one symbol, but not one character
        sc = [Scope(vals, 1, ["p0"] * i + a) for i, a in ((0, ["-n"]), (0, ["--nn"]), (0, ["-w", "x", "-w"]), (0, ["--kk"]), (0, []), (1, []), (1, ["x"]), (0, ["--"]), (1, ["--"]))]
        sc += [Scope([pre + tb(v) for v in vals for pre in (b"--nn=", b"-n", b"--ww=", b"--qq=", b"--kk=a:", b"--kk=")], 1)]
        out.append(Fam(Def("texts_" + re.sub(r"\W", "", ty).lower(), S("Cli", fs(ty))), sc))
    return out

def c23(tier):
    out = []
    n = 3 if tier == "quick" else 4
    sub = S("Sub", [F("p", "Option<LStr>", default="pp"), F("o", "Vec<LOs>", short="o", delim=":", default="a:b"), F("e", "u16", short="e", glob=True, default_t=("7 * 6", ["42"], "42"))], sub=("subc", True, E("D", [V("Deep", "struct", S("Deep", [F("t", "Vec<LStr>", trailing=True), F("q", "LStr", short="q", default_t=("String::from(\"q\")", ["q"], "q"))]))])))
    d = Def("effects", S("Cli", [F("s", "LStr", long="ss", short="s", default="dd"), F("v", "Vec<LStr>", long="vv", short="v", delim=","), F("r", "Option<Raw>", short="r", glob=True), F("oo", "Option<Option<Tag>>", long="oo", require_equals=True), F("x", "u8", short="x", default_t=("1 + 1", ["2"], "2"), conflicts=["s"]), F("b", "bool", short="b", default_t=("2 > 1", ["true"], "true")),
              F("l", "Option<LStr>", short="l", default_t=("String::new()", [""], ""))], flatten=[("g", S("G", [F("gx", "LOs", short="g", default=""), F("gy", "Option<Ver>", long="gy", requires=["gz"]), F("gz", "i8", long="gz", default_t=("-1", ["-1"], "-1"), negnum=True)]))], sub=("subc", True, E("C", [V("Sub", "struct", sub), V("Unit")]))))
    out.append(Fam(d, [Scope(["--ss=", "-sa", "-v", "a,b", "--vv=,", "-r!", "-r", "--oo", "--oo=z", "-x3", "-b", "-l", "-g", "--gy=v1", "--gz", "-5", "sub", "unit", "-h"], n), Scope(["x", "-o", "a:b:", "-e9", "deep", "-q", "y", "-rk", "-e", "--", "-bxs"], n, ["sub"]), Scope(["x", "-o", "", "-e9", "-q", "--", "-rk"], n, ["sub", "deep"])]))
    d = Def("effpos", S("Cli", [F("a", "LStr"), F("b", "Option<Tag>"), F("c", "LOs", default="cc"), F("m", "Vec<LStr>", delim=";"), F("z", "Option<Vec<Raw>>", last=True, delim="="), F("f", "bool", short="f", exclusive=True)]))
    out.append(Fam(d, [Scope(["x", "", "!", "p;q;", "--", "-f", "k=l", "-", "\u00e9", b"\xff"], n + 1)]))
    d = Def("effreq", S("Cli", [F("a", "Option<LStr>", short="a", requires=["b"], default="1"), F("b", "Option<LOs>", short="b", required=True, conflicts=["c"]), F("c", "Vec<Tag>", short="c", default="k"), F("d", "u8", short="d", default_t=("3", ["3"], "3")), F("k", "Option<LStr>", short="k", default_t=("String::from(\"kk\")", ["kk"], "kk"))], sub=("subc", False, E("C", [V("Go", "struct", S("Go", [F("w", "LStr", default="ww"), F("y", "Tag", short="y")]))]))))
    out.append(Fam(d, [Scope(["-a", "-b", "-cx", "-d1", "-k=", "go", "-y", "!", "v", "-bq"], n + 1)]))
    out = [noticing(f) for f in out + texts(("LStr", "LOs", "Tag", "Raw", "Ver"))]
    for g, k in ((c12, 6), (c10, 5), (c06, 3), (c04, 3), (c11, 4), (c08, 3), (c05, 2), (c03, 2), (c02, 2)):
        fs = [f for f in g("quick") if len(all_fields(f.d.root)) <= 24 and f.scopes]
        for f in fs[:k if tier == "quick" else 3 * k]:
            f = noticing(f, "%s_%s" % (g.__name__, f.d.name))
            for s in f.scopes: s.n = min(s.n, 2)
            out.append(f)
    return out

# ---------------------------------------------------------------------------------------------- C18
def c18(tier):
    """well-formed definitions that spec/MCDerive.tla edits"""
    ds = []
    ds.append(Def("s_named", S("N1", [F("alpha", "Option<u8>", long=True, short="a", alias=["al", "ph"], salias=["A"]), F("beta", "bool", short="b", long="bet"), F("delta", "Vec<String>", long=True, delim=",")])))
    ds.append(Def("s_pos", S("N1", [F("p", "u8"), F("q", "Option<OsString>"), F("v", "Vec<String>"), F("w", "Vec<OsString>", last=True)])))
    ds.append(Def("s_trail", S("N1", [F("p", "Option<u8>"), F("t", "Option<Vec<String>>", trailing=True), F("n", "Option<u8>", long="n")])))
    g2 = S("N3", [F("gz", "bool", long="gz")])
    g = S("N2", [F("gx", "Option<u8>", long="gx", requires=["gy"]), F("gy", "bool", short="y")], flatten=[("g2", g2)])
    ds.append(Def("s_flat", S("N1", [F("x", "u8", short="x", required=True), F("y", "Option<Tag>", long="yy")], flatten=[("g", g), ("h", S("N4", []))])))
    e = E("C", [V("Add", "struct", S("N2", [F("k", "u8", short="k", hyphen=False, default="1"), F("f", "Vec<OsString>")])), V("DelAll", "tuple", S("N3", [F("force", "bool", short="f", glob=True)]))])
    ds.append(Def("s_sub", S("N1", [F("g", "Option<u8>", long="gg", glob=True)], sub=("subc", True, e))))
    en = VE("Lvl", ["LowLevel", ("Mid", "m"), "Xx"], "snake_case")
    ds.append(Def("s_enum", S("N1", [F("e", "Option<Lvl>", long=True, icase=True), F("k", "Vec<Lvl>", short="k", delim=","), F("p", "Lvl")]), [en]))
    ds.append(Def("s_kinds", S("N1", [F("o", "Option<Option<u8>>", long="oo", require_equals=True), F("l", "Option<Vec<u8>>", short="l", delim=","), F("hy", "Option<OsString>", short="y", hyphen=True), F("nn", "i8", long="nn", negnum=True, value_name="N")])))
    ds.append(Def("s_cons", S("N1", [F("a", "bool", short="a", exclusive=True), F("b", "Option<u8>", short="b", requires=["c"]), F("c", "u8", long="cc", default_t=("3", ["3"], "3")), F("d", "String", long="dd", default="x", conflicts=["b", "a"])])))
    ds.append(Def("s_raw", S("N1", [F("r#type", "Option<u8>", long=True), F("snake_case_", "Option<u8>", long=True, short=True), F("_x", "bool", long=True)])))
    # declared against the grain, and more of everything
    ds.append(Def("s_lastfirst", S("N1", [F("w", "Option<Vec<OsString>>", last=True), F("p", "u8"), F("n", "Option<u8>", long="n"), F("v", "Vec<String>")])))
    ds.append(Def("s_lastmid", S("N1", [F("p", "Option<u8>"), F("w", "Vec<u8>", last=True), F("q", "Option<Tag>"), F("t", "Vec<String>", trailing=True)], sub=("subc", True, E("C", [V("Go", "struct", S("N2", [F("lw", "Vec<OsString>", last=True), F("lp", "Option<OsString>")]))])))))
    ds.append(Def("s_names", S("N1", [F("a1", "Option<u8>", long="one", short="a", alias=["uno", "eins"], salias=["b", "c"]), F("a2", "bool", short="d", salias=["e", "f"]), F("a3", "Vec<u8>", long="three", alias=["tres", "drei"]),
                                      F("a4", "Option<String>", long="four", short="g", salias=["h", "i", "é"], alias="é"), F("a5", "bool", long=True, short="k"), F("a6", "Option<OsString>", long="six", salias=["l"])])))
    ds.append(Def("s_refs", S("N1", [F("a", "bool", short="a"), F("b", "Option<u8>", short="b", requires=["a", "d"], conflicts=["c"]), F("c", "Vec<u8>", long="cc", requires=["p"], conflicts=["a", "b"]), F("d", "u8", long="dd", default="3", conflicts=["c", "p"]), F("p", "Option<String>", requires=["a", "b"])])))
    h = [S("N%d" % (i + 2), [F("h%d" % i, "Option<u8>", long="h%d" % i), F("k%d" % i, "bool", short="klmn"[i])]) for i in range(4)]
    h[1].flatten = [("deep", S("N9", [F("z9", "Vec<u8>", long="z9")]))]
    ds.append(Def("s_flats", S("N1", [F("x", "u8", short="x"), F("v", "Vec<String>")], flatten=[("g%d" % i, x) for i, x in enumerate(h)])))
    en5 = VE("Six", ["Aa", ("Bb", "x-b"), "CcDd", ("Ee", "e"), "Ff9", "GG"], "kebab-case")
    ds.append(Def("s_enum6", S("N1", [F("e", "Option<Six>", long=True), F("k", "Vec<Six>", short="k", delim=",", icase=True, default="aa,e")]), [en5]))
    ds.append(Def("s_subs", S("N1", [F("v", "bool", short="v", glob=True)], sub=("subc", False, E("C", [V("Aa"), V("BbCc", "struct", S("N2", [F("k", "u8", short="k")], sub=("inn", True, E("C2", [V("Xx"), V("Yy", "struct", S("N3", [F("y", "bool", short="y")])), V("XxYy")])))), V("Dd", "tuple", S("N4", [F("f", "u8")])), V("Ee"), V("R9x")])))))
    return [Fam(d, []) for d in ds]
