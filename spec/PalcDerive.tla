----------------------------- MODULE PalcDerive -----------------------------
(***************************************************************************)
(* Which definitions the derive macros must accept and which they must     *)
(* reject: a predicate over source-level definitions that may be ill-      *)
(* formed.  The definitions are those of PalcDefs, with a few values that  *)
(* only ill-formed ones have:                                              *)
(*    field.hy = "both"      allow_hyphen_values and allow_negative_numbers *)
(*    field.dflt.m = "both"  default_value and default_value_t             *)
(*    field.requires / confl contain 0: a name that is no argument of the  *)
(*                           struct                                        *)
(*    field.ty.k = "opaque"  a type without any conversion                 *)
(*    field.odd              raw attributes that are never accepted        *)
(*    node.sub.extra         further #[command(subcommand)] fields         *)
(*    node.pad               number of additional flag fields              *)
(***************************************************************************)
EXTENDS PalcProps

HasControl(s) == \E i \in 1..Len(s) : s[i] \in ControlSet
LongOk(s) == s # <<>> /\ s[1] # "-" /\ ~HasControl(s) /\ \A i \in 1..Len(s) : s[i] # "="
ShortOk(c) == c # "-" /\ c # "=" /\ c \notin ControlSet

SetOf(q) == {q[i] : i \in 1..Len(q)}
Dup(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
Rule(name, cond) == IF cond THEN {name} ELSE {}

AsciiUpper(s) == \E i \in 1..Len(s) : s[i] \in UpperSet
KnownRules == {"kebab-case", "snake_case", "SCREAMING_SNAKE_CASE", "PascalCase", "camelCase", "lower", "UPPER", "verbatim"}

\* the names of a derive(ValueEnum) type, once its rename rule is known to exist
EnumNames(ty) == LET t == EnumTab(ty) IN [i \in 1..Len(t) |-> t[i].n]
EnumViol(ty) ==
  IF ty.k # "enum" THEN {}
  ELSE IF ty.rule \notin KnownRules THEN {"unknown rename rule"}
  ELSE Rule("duplicated value names", Dup(EnumNames(ty)))
       \cup Rule("control character in a value name", \E i \in 1..Len(EnumNames(ty)) : HasControl(EnumNames(ty)[i]))

FieldViol(f) ==
  LET named == IsNamed(f) IN
  Rule("illegal long name", named /\ \E x \in SetOf(PrimLong(f)) \cup SetOf(f.alias) : ~LongOk(x))
  \cup Rule("illegal short name", named /\ \E x \in {PrimShort(f)[i][1] : i \in 1..Len(PrimShort(f))} \cup {f.salias[i][1] : i \in 1..Len(f.salias)} : ~ShortOk(x))
  \cup Rule("control character in value_name", HasControl(ValueName(f)))
  \cup Rule("value_delimiter on a single-valued argument", f.delim # <<>> /\ ~IsVec(f))
  \cup Rule("both hyphen policies", f.hy = "both")
  \cup Rule("hyphen policy on an argument without separate value", f.hy \in {"any", "num"} /\ (~ReqVal(f) \/ f.reqeq))
  \cup Rule("hyphen policy on a positional", f.hy \in {"any", "num"} /\ ~named)
  \cup Rule("Option<Option<_>> without require_equals", f.kind = "optopt" /\ ~f.reqeq)
  \cup Rule("last or trailing_var_arg on a named argument", named /\ (f.last \/ f.trailing))
  \cup Rule("require_equals, global or ignore_case on a positional", ~named /\ (f.reqeq \/ f.global \/ f.icase))
  \cup Rule("last on a single-valued argument", ~named /\ f.last /\ ~IsVec(f))
  \cup Rule("required with a default", f.required /\ f.dflt.m # "none")
  \cup Rule("two defaults", f.dflt.m = "both")
  \cup Rule("ignore_case on no ValueEnum", f.icase /\ f.ty.k # "enum")
  \cup Rule("ignore_case on a ValueEnum with upper-case names",
            f.icase /\ f.ty.k = "enum" /\ f.ty.rule \in KnownRules /\ \E i \in 1..Len(EnumNames(f.ty)) : AsciiUpper(EnumNames(f.ty)[i]))
  \cup Rule("type without conversion", f.ty.k = "opaque")
  \cup Rule("unsupported attribute", f.odd # <<>>)
  \cup EnumViol(f.ty)

\* Names are compared as they are matched, within one struct.
StructNames(fs) == Flat([i \in 1..Len(fs) |-> NameSeq(fs[i])])

Positional(fs) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~IsNamed(fs[i]))
NodeViol(nodes, n) ==
  LET nd == nodes[n]
      fs == nd.fields
      ps == Positional(fs)
      var == SelectSeq(ps, LAMBDA i : IsVec(fs[i]) /\ ~fs[i].last)
      last == SelectSeq(ps, LAMBDA i : fs[i].last)
      single == SelectSeq(ps, LAMBDA i : ~IsVec(fs[i]) /\ ~fs[i].last)
  IN UNION {FieldViol(fs[i]) : i \in 1..Len(fs)}
     \cup Rule("duplicated argument names", Dup(StructNames(fs)))
     \cup Rule("two variable-length positionals", Len(var) > 1)
     \cup Rule("two last arguments", Len(last) > 1)
     \cup Rule("positional after a variable-length one", \E i \in SetOf(single), j \in SetOf(var) : j < i)
     \cup Rule("two subcommand fields", nd.sub.has /\ nd.sub.extra > 0)
     \cup Rule("reference to an unknown argument", \E i \in 1..Len(fs) : 0 \in SetOf(fs[i].requires) \cup SetOf(fs[i].confl))
     \cup Rule("exclusive next to flattened arguments", nd.flats # <<>> /\ \E i \in 1..Len(fs) : fs[i].excl)
     \cup Rule("flattened positionals", \E j \in 1..Len(nd.flats) : Positional(nodes[nd.flats[j]].fields) # <<>>)
     \cup Rule("flattened subcommand", \E j \in 1..Len(nd.flats) : nodes[nd.flats[j]].sub.has)
     \cup Rule("duplicated subcommand names", nd.sub.has /\ Dup([c \in 1..Len(nd.sub.cmds) |-> CmdName(nd.sub.cmds[c])]))
     \cup Rule("too many fields", Len(fs) + Len(nd.flats) + (IF nd.sub.has THEN 1 + nd.sub.extra ELSE 0) + nd.pad > 254)

RECURSIVE Reach(_, _, _)
Reach(nodes, todo, done) ==
  IF todo = {} THEN done
  ELSE LET n == CHOOSE x \in todo : TRUE
           next == SetOf(nodes[n].flats) \cup (IF nodes[n].sub.has THEN {nodes[n].sub.cmds[c].node : c \in 1..Len(nodes[n].sub.cmds)} ELSE {})
       IN Reach(nodes, (todo \cup (next \ done)) \ {n}, done \cup {n})
Nodes(df) == Reach(df.nodes, {df.root}, {})

Violated(df) == UNION {NodeViol(df.nodes, n) : n \in Nodes(df)}
WellFormed(df) == Violated(df) = {}

(* Definitions about which nothing is promised: accepted or not, sensible  *)
(* or not.                                                                 *)
FieldGrey(f) ==
  \/ ~IsNamed(f) /\ (f.alias # <<>> \/ f.salias # <<>>)     \* aliases of an argument without a name
  \/ ~IsNamed(f) /\ f.dflt.m = "expr"                        \* documented as not supported yet, but works
  \/ ~IsNamed(f) /\ f.kind = "bool"                          \* a positional flag
  \/ f.kind = "bool" /\ f.dflt.m \in {"str", "both"}
  \/ f.kind = "optopt" /\ f.dflt.m # "none"
  \/ f.dflt.m = "expr" /\ IsVec(f)
  \/ f.dflt.m = "expr" /\ f.ty.k \notin {"int", "enum", "bool", "str"}
  \/ f.dflt.m = "expr" /\ f.ty.k = "enum" /\ f.ty.vars = <<>>
  \/ f.dflt.m = "str" /\ f.ty.k = "enum" /\ f.ty.rule \notin KnownRules
  \* a default text that is no value of the type
  \/ f.dflt.m = "str" /\ f.ty.k # "opaque" /\ f.kind # "bool" /\
       ~Store([f EXCEPT !.ty = [k |-> f.ty.k, lo |-> f.ty.lo, hi |-> f.ty.hi, en |-> EnumTab(f.ty)]], Unset, TRUE, f.dflt.v).ok
NodeGrey(nd) == \E i \in 1..Len(nd.fields) : FieldGrey(nd.fields[i])
Grey(df) == \E n \in Nodes(df) : NodeGrey(df.nodes[n]) \/ \E c \in 1..Len(df.nodes[n].sub.cmds) : CmdName(df.nodes[n].sub.cmds[c]) = <<>>
=============================================================================
