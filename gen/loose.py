"""Possibly ill-formed definitions: JSON as spec/MCDerive.tla prints them -> definitions in Rust."""
import json
from dsl import *

KW = {"type", "match", "loop", "fn", "move", "in", "for", "if", "use", "mod", "ref", "as", "box", "do"}

# raw attribute texts that are never accepted (spec: field.odd)
ODD = ["frobnicate", "frobnicate = true", "hide = false", "long, long", "short = 'o', short = 'o'", "required = true, required = true", "global", "value_name = 'c'", "long = 'l'", "short = \"s\"",
       "short = 'ab'", "default_value = 3", "value_delimiter = \",\"", "use_value_delimiter = false", "requires = nope", "requires = \"a b\"", "conflicts_with = []", "num_args = 2", "env = \"X\"", "action = x",
       "value_enum, value_enum", "alias = 'a'", "short_alias = \"a\"", "last = true, last = true", "value_name = \"A\", value_name = \"B\"", "help = 1", "long = \"a\" \"b\"", "default_value = \"1\", default_value = \"2\"", "="]

TYPES = [BASE["u8"], BASE["String"], BASE["OsString"], BASE["bool"], BASE["Tag"], Ty("Opaque", "opaque"), Ty("Box<u8>", "opaque"), Ty("Result<u8, String>", "opaque"), Ty("()", "opaque"),
         VE("Lo", ["Aa", ("Bb", "b")]), VE("Up", ["Aa", "Bb"], "PascalCase")]

def ty_json(t):
    j = t.json()
    if t.k == "opaque": j["hi"] = syms(t.rust)
    return j

def seed_json(d):
    j = d.json()
    for n in j["nodes"]:
        n["pad"] = 0
        n["sub"]["extra"] = 0
        for f in n["fields"]: f["odd"] = []
    return j

def text(ss): return unsyms(ss).decode()
def raw(i): return "r#" + i if i in KW else i

class Loose:
    """one printed definition"""
    def __init__(self, rec, name):
        self.rec, self.types, self.fns = rec, {}, {}
        nodes = rec["nodes"]
        made = {}
        self.nenum = 0
        def ty(t):
            if t["k"] == "opaque": return text(t["hi"])
            if t["k"] == "enum":
                key = json.dumps([t["rule"], t["vars"]], sort_keys=True)
                if key not in self.types:
                    v = VE("T%d" % (len(self.types) + 1), [(raw(text(x["id"])), text(x["nm"]["v"]) if x["nm"]["m"] == "exp" else None) for x in t["vars"]], t["rule"])
                    self.types[key] = v
                return self.types[key].rust
            for b in BASE.values():
                if b.k == t["k"] and b.k != "int" or b.k == "int" and b.json()["lo"] == t["lo"] and b.json()["hi"] == t["hi"] and t["k"] == "int": return b.rust
            raise KeyError(t["k"])
        def ov(o): return None if o["m"] == "no" else True if o["m"] == "inh" else text(o["v"])
        def field(f, ids):
            k, b = f["kind"], ty(f["ty"])
            rt = {"bool": "bool", "value": b, "option": "Option<%s>" % b, "optopt": "Option<Option<%s>>" % b, "vec": "Vec<%s>" % b, "optvec": "Option<Vec<%s>>" % b}[k]
            dd = f["dflt"]
            def expr():
                v = text(dd["val"]["v"][0])
                if f["ty"]["k"] == "int":      # by way of a function that has the field's own name, as far as that is free
                    fn = raw(text(f["id"]))
                    if fn not in ("go", "hex", "unhex", "one", "jobs", "level", "grp", "subc") and self.fns.setdefault(fn, (b, v)) == (b, v): return fn + "()"
                return {"int": v, "bool": v, "str": "%s.to_string()" % rstr(v), "enum": "%s::%s" % (b, raw(v))}.get(f["ty"]["k"], "Default::default()")
            x = F(raw(text(f["id"])), rt, long=ov(f["long"]), short=ov(f["short"]), alias=[text(a) for a in f["alias"]], salias=[text(a) for a in f["salias"]],
                  value_name=ov(f["vname"]), require_equals=f["reqeq"], glob=f["global"], hyphen=f["hy"] in ("any", "both"), negnum=f["hy"] in ("num", "both"),
                  icase=f["icase"], trailing=f["trailing"], last=f["last"], required=f["required"], exclusive=f["excl"], hide=f["hide"],
                  delim=text(f["delim"]) or None, requires=[ids[r] if r else "no_such_field" for r in f["requires"]], conflicts=[ids[r] if r else "no_such_field" for r in f["confl"]],
                  doc=[text(x) for x in f["doc"]], raw_attrs=[text(x) for x in f["odd"]])
            if dd["m"] in ("str", "both"): x.default = text(dd["v"])
            if dd["m"] == "expr": x.default_t = (expr(), [text(v) for v in dd["val"]["v"]], text(dd["disp"]))
            if dd["m"] == "both": x.default_both = expr()
            return x
        def struct(n):
            if n in made: return made[n]
            nd = nodes[n - 1]
            ids = [None] + [raw(text(f["id"])) for f in nd["fields"]]
            fs = [field(f, ids) for f in nd["fields"]] + [F("pad%d" % i, "bool", long="pad%d" % i) for i in range(nd["pad"])]
            s = S("N%d" % n, fs, about=[text(x) for x in nd["about"]])
            made[n] = s
            s.flatten = [("flat%d__" % j, struct(m)) for j, m in enumerate(nd["flats"])]
            if nd["sub"]["has"]:
                e = E("C%d" % n, [V(raw(text(c["id"])), "struct" if (n + i) % 2 or nodes[c["node"] - 1]["about"] else "tuple", struct(c["node"])) for i, c in enumerate(nd["sub"]["cmds"])])
                s.sub = ("sub__", nd["sub"]["opt"], e)
                s.extra = nd["sub"]["extra"]
            return s
        root = struct(rec["root"])
        self.d = Def(name, root, list(self.types.values()))
        self.d.items = ["fn %s() -> %s { %s }\n" % (fn, b, v) for fn, (b, v) in sorted(self.fns.items())]

    def rust(self):
        """the module without the code that inspects parsed values"""
        t = self.d.rust("x")[len("pub mod x {\n"):-2]
        t = "\n".join(ln for ln in t.split("\n") if not ln.startswith("impl Dump for ") and not ln.startswith("impl Val for "))
        t = t.replace("use super::support::*;", "use crate::support::*;")
        for n, s in list((s.name, s) for s in self.structs()):
            if getattr(s, "extra", 0):
                t = re.sub(r"( *)#\[command\(subcommand\)\]\n *sub__: (Option<)?%s\b" % s.sub[2].name,
                           lambda m: "%s#[command(subcommand)]\n%sextra_sub__: Option<%s>,\n%s" % (m[1], m[1], s.sub[2].name, m[0]), t)
        return t + "\npub fn go(a: Vec<OsString>) -> bool { <Root as palc::Parser>::try_parse_from(a).is_ok() }\n"

    def structs(self):
        out = []
        def go(s):
            if s in out: return
            out.append(s)
            for _, c in s.flatten: go(c)
            if s.sub:
                for v in s.sub[2].variants: go(v.s)
        go(self.d.root)
        return out

# ---------------------------------------------------------------------------------------------- shapes (spec/MCShape.tla)
PRE = """use crate::support::*;
const ABOUT: &'static str = "about";
#[derive(palc::Args)] pub struct Flat { #[arg(long)] fl: bool }
#[derive(palc::Args)] pub struct WithPos { fl: Option<u8> }
#[derive(palc::Args)] pub struct WithSub { #[command(subcommand)] fl: Option<Cmd> }
#[derive(palc::Subcommand)] pub enum Cmd { One, Two { #[arg(long)] z: bool } }
#[derive(Clone, Copy, palc::ValueEnum)] pub enum Enumv { One, Two }
"""
USE = {"Parser": "pub fn go(a: Vec<OsString>) -> bool { <%s as palc::Parser>::try_parse_from(a).is_ok() }\n",
       "Args": "#[derive(palc::Parser)] pub struct Outer { #[command(flatten)] x: %s }\n", "Subcommand": "#[derive(palc::Parser)] pub struct Outer { #[command(subcommand)] x: %s }\n",
       "ValueEnum": "#[derive(palc::Parser)] pub struct Outer { #[arg(long)] x: %s }\n"}

# every kind of derived item and of generated code, depending on nothing in scope but `Option`, `Vec` and `bool`
ANY = """
/// about
#[derive(::palc::Parser)]
#[command(name = "x", version = "1", after_long_help = "z", long_about = "lo")]
pub struct Cli {
    /// verbose
    #[arg(short, long, global = true)] pub verbose: bool,
    #[arg(long, default_value = "4")] pub num: ::core::primitive::u32,
    #[arg(long, default_value_t = 4)] pub num2: ::core::primitive::u32,
    #[arg(long, default_value_t = 0xFFFF_FFFF_FFFF)] pub num3: ::core::primitive::u64, #[arg(long, default_value_t = -5_000_000_000)] pub num4: ::core::primitive::i64, #[arg(long, default_value_t = 16777217.5)] pub num5: ::core::primitive::f32,
    #[arg(long, conflicts_with = "opt", requires = "num", value_delimiter = ',')] pub many: Vec<::std::string::String>,
    #[arg(long, ignore_case = true, default_value_t)] pub color: Color,
    #[arg(long)] pub opt: Option<::std::string::String>,
    #[arg(short = 'o', require_equals = true)] pub oo: Option<Option<::std::string::String>>,
    #[arg(long)] pub ov: Option<Vec<::core::num::NonZero<::core::primitive::u64>>>,
    #[command(flatten)] pub fl: Fl,
    pub posi: ::std::path::PathBuf,
    #[arg(last = true)] pub rest: Vec<::std::ffi::OsString>,
    #[command(subcommand)] pub sub: Option<Sub>,
}
#[derive(::palc::Args)] pub struct Fl { #[arg(long)] pub size: Option<::core::primitive::usize> }
#[derive(::palc::Args)] pub struct Tu { #[arg(long, exclusive = true)] pub info: Option<::core::primitive::usize>, pub parser: ::std::string::String, #[arg(hide = true)] pub out: Option<::std::string::String>, #[command(subcommand)] pub s: SubB }
#[derive(::palc::Subcommand)] pub enum Sub { /// run
    Run { #[arg(long, default_value_t = 7)] jobs: ::core::primitive::u32, #[arg(long, exclusive = true)] z: bool }, Unit, T(Tu) }
#[derive(::palc::Subcommand)] pub enum SubB { Unit }
#[derive(::palc::Subcommand)] pub enum SubN {}
#[derive(::palc::ValueEnum, ::core::clone::Clone, ::core::marker::Copy)] pub enum Color { Red, DarkGreen }
#[derive(::palc::ValueEnum, ::core::clone::Clone, ::core::marker::Copy)] pub enum Never {}
impl ::core::default::Default for Color { fn default() -> Self { Self::Red } }
"""

def env_rust(s):
    p, n = s["pre"], s["name"]
    if p == "place":
        return {"module": ANY, "function": "pub fn f() {\n%s}\n" % ANY, "no_implicit_prelude": "#![no_implicit_prelude]\nuse ::core::prelude::v1::derive; use ::core::option::Option; use ::std::vec::Vec;\n" + ANY,
                "nested": "pub mod a { pub mod b { pub mod c {\n%s} } }\n" % ANY, "const_block": "const _: () = {\n%s};\n" % ANY, "macro": "macro_rules! it { () => {\n%s} }\nit!();\n" % ANY}[n]
    if p == "lint": return "#![deny(%s)]\n%s" % (n, ANY)
    if p == "variant_inside": return "pub fn f() {\npub enum Stranger { %s }\nuse Stranger::*;\n%s}\n" % (n, ANY)
    item = {"struct": "pub struct %s;", "trait": "pub trait %s {}", "type": "pub type %s = ();", "mod": "pub mod %s {}", "const": "pub const %s: () = ();", "fn": "pub fn %s() {}", "static": "pub static %s: () = ();",
            "variant": "pub enum Stranger { %s }\npub use Stranger::*;", "macro": "macro_rules! %s { ($($x:tt)*) => { compile_error!(\"stranger\") } }"}[p] % n
    return item + "\n" + ANY

def shape_rust(s):
    k = s["k"]
    if k == "env": return env_rust(s)
    if k == "item":
        g = {"none": "", "type": "<T>", "lifetime": "<'a>", "const": "<const N: usize>"}[s["gen"]]
        named = s["derive"] not in ("ValueEnum",)
        t = {"none": "u8", "type": "T", "lifetime": "&'a str", "const": "u8"}[s["gen"]]
        arg = "#[arg(long)] " if s["derive"] in ("Parser", "Args") else "#[arg(long)] " if s["derive"] == "Subcommand" and s["data"].startswith("enum_") else ""
        flat = "Flat" if s["gen"] != "type" else "T"
        d = dict(unit_struct="struct X%s;", tuple_struct0="struct X%s();", tuple_struct1="struct X%%s(%s);" % t, named_struct="struct X%%s { %sa: %s }" % (arg, t), named_empty="struct X%s {}", union="union X%%s { a: %s }" % "u8",
                 enum_empty="enum X%s {}", enum_unit="enum X%s { A, B }", enum_tuple0="enum X%s { A() }", enum_tuple1="enum X%%s { A(%s) }" % flat, enum_tuple2="enum X%%s { A(%s, u8) }" % flat,
                 enum_struct="enum X%%s { A { %sa: %s } }" % (arg, t), enum_mixed="enum X%%s { A { %sa: %s }, B, C(Flat) }" % (arg, t), enum_bad_first="enum X%%s { A(%s, u8), B, C }" % flat, enum_bad_middle="enum X%%s { B, A(%s, u8), C }" % flat)[s["data"]] % g
        ok = "" if s["gen"] != "none" else USE[s["derive"]] % "X"
        return PRE + "#[derive(%spalc::%s)]\npub %s\n%s" % ("Clone, Copy, " if s["derive"] == "ValueEnum" and s["data"].startswith("enum") else "", s["derive"], d, ok)
    if k in ("cmd", "argattr", "doc") and s["at"] not in ("field", "flatten_field", "subcommand_field"):
        a = "#[command(%s)]" % s["attr"] if k == "cmd" else "#[arg(long)]" if k == "argattr" else "#[doc = %s]" % s["text"]
        p = s["at"]
        if p in ("parser", "args"): return PRE + "#[derive(palc::%s)]\n%s\npub struct X { #[arg(long)] a: bool }\n" % (p.capitalize(), a)
        return PRE + "#[derive(palc::Subcommand)]\npub enum X {\n    B,\n    %s\n    %s,\n}\n" % (a, {"unit_variant": "A", "struct_variant": "A { #[arg(long)] a: bool }", "tuple_variant": "A(Flat)"}[p])
    if k == "doc":
        p = {"field": "#[arg(long)] a: bool", "flatten_field": "#[command(flatten)] a: Flat", "subcommand_field": "#[command(subcommand)] a: Cmd"}[s["at"]]
        return PRE + "#[derive(palc::Args)]\npub struct X {\n    #[doc = %s]\n    %s\n}\n" % (s["text"], p)
    if k == "field":
        t = s["ty"] if s["ty"] != "Self_" else "X"
        return PRE + "#[derive(palc::Args)]\npub struct X {\n    %s\n    a: %s\n}\n" % (s["attr"], t)
    if k == "variant": return PRE + "#[derive(Clone, Copy, palc::ValueEnum)]\npub enum X { B, #[value(%s)] A, C }\n" % s["attr"]
    return PRE + "#[derive(Clone, Copy, palc::ValueEnum)]\n#[value(%s)]\npub enum X { B, A }\n" % s["attr"]
