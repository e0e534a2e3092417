------------------------------ MODULE MCShape ------------------------------
(***************************************************************************)
(* Items and attribute positions: which derive macro applies to which kind *)
(* of item, and which #[command] / #[value] / #[doc] attributes are        *)
(* meaningful where.  Every shape is printed with its verdict; the real    *)
(* macros have to agree.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

VARIABLE shp

Derives == {"Parser", "Args", "Subcommand", "ValueEnum"}
Datas == {"unit_struct", "tuple_struct0", "tuple_struct1", "named_struct", "named_empty", "union", "enum_empty", "enum_unit",
          "enum_tuple0", "enum_tuple1", "enum_tuple2", "enum_struct", "enum_mixed", "enum_bad_first", "enum_bad_middle"}
Generics == {"none", "type", "lifetime", "const"}

\* attributes of a command: #[command(..)] or #[doc] texts by name
GoodCmd == {"name = \"x\"", "version", "version = \"1\"", "long_about", "long_about = \"x\"", "long_about = ABOUT", "after_long_help = \"x\"", "long_about = \"x\", after_long_help = ABOUT", ""}
BadCmd == {"name", "name = 1", "long_about = 1", "after_long_help", "author", "author = \"x\"", "about", "about = \"x\"", "after_help = \"x\"", "term_width = 80", "max_term_width = 80",
           "frob", "frob = \"x\"", "long_about, long_about", "after_long_help = \"x\", after_long_help = \"y\"", "version, version = \"1\"", "name = \"a\", name = \"b\"", "flatten", "subcommand", "arg_required_else_help = true", "rename_all = \"x\"", "="}
CmdPlaces == {"parser", "args", "unit_variant", "struct_variant", "tuple_variant"}

GoodDoc == {"\"text\"", "\"\"", "r\"raw\"", "\"a\\nb\""}
DocPlaces == {"args", "field", "unit_variant", "struct_variant", "tuple_variant", "flatten_field", "subcommand_field"}

\* what a field is used for, and its type
FieldAttrs == {"#[command(flatten)]", "#[command(subcommand)]", "#[command(frob)]", "#[command(flatten)] #[command(flatten)]", "#[command(flatten)] #[arg(long)]", "#[arg(long)] #[command(flatten)]",
               "#[command(subcommand)] #[arg(long)]", "#[command(flatten, subcommand)]", "#[command(flatten)] #[command(subcommand)]", "#[command(flatten = true)]", "#[command()]", "#[command]", "#[command(name = \"x\")]",
               "#[arg()]", "#[arg]", "#[arg = \"x\"]", "#[arg(long)] #[arg(short)]", "#[arg(long, short)]", "#[arg(long)] #[arg(long)]", "#[arg(long,)]", "#[arg(,)]", "#[arg(long short)]", "#[arg(long; short)]", "#[value(name = \"x\")]"}
FieldTypes == {"u8", "Flat", "Cmd", "Option<Cmd>", "Option<Flat>", "Vec<Cmd>", "Option<Option<Cmd>>", "Box<Flat>", "bool", "Self_", "WithPos", "WithSub", "Enumv"}

EnumAttrs == {"name = \"x\"", "name = \"\"", "name = \"x y\"", "name", "name = 'x'", "name = 1", "alias = \"x\"", "skip", "help = \"x\"", "name = \"x\", name = \"y\"", "rename_all = \"lower\"", "", "frob", "name = \"a\\tb\"", "name = \"b\"", "name = \"\\u{7f}\"", "name = \"é\""}
EnumRules == {"rename_all = \"kebab-case\"", "rename_all = \"camelCase\"", "rename_all = \"PascalCase\"", "rename_all = \"SCREAMING_SNAKE_CASE\"", "rename_all = \"snake_case\"", "rename_all = \"lower\"", "rename_all = \"UPPER\"", "rename_all = \"verbatim\"",
              "rename_all = \"Kebab-Case\"", "rename_all = \"\"", "rename_all = \"lowercase\"", "rename_all = \"UPPERCASE\"", "rename_all = \"SCREAMING-KEBAB-CASE\"", "rename_all", "rename_all = lower", "rename_all = \"lower\", rename_all = \"lower\"", "name = \"x\"", "frob", ""}

\* Where a definition stands: what else is called what around it must not matter.  `pre` is the
\* kind of the stranger, `name` its name.
TypeNames == {"Result", "String", "Box", "Default", "Iterator", "Fn", "Into", "From", "AsRef", "ToString", "Sized", "Drop", "Copy", "Clone", "Send", "Debug", "Display", "PhantomData", "Infallible",
              "ControlFlow", "OsStr", "OsString", "NonZero", "Ok", "Err", "Some", "None", "Parser", "Args", "Subcommand", "ValueEnum", "Error", "ErrorKind",
              "Frame", "ArgsFrame", "Parsable", "RunParser", "ArgAttrs", "RawArgsInfo", "RawSubcommandInfo", "ValueParser", "FlagPlace", "SetValuePlace", "VecPlace", "T", "Self_"}
ModNames == {"std", "core", "alloc", "palc", "__private", "fmt", "runtime", "refl", "values", "error", "shared", "help", "crate_"}
ValueNames == {"Ok", "Err", "Some", "None", "verbose", "num", "many", "opt", "posi", "sub", "jobs", "color", "size", "from_utf8",
               "error_missing_arg", "error_missing_subcmd", "error_conflict", "error_dependency", "error_exclusive", "unreachable_nounwind", "assert_auto_infer_value_parser_ok", "drop", "Red", "DarkGreen", "Run", "Unit"}
MacroNames == {"concat", "assert", "env", "format_args", "unimplemented", "unreachable", "panic", "matches", "write", "format", "stringify", "debug_assert", "vec", "option_env", "include_str", "line", "file", "module_path",
               "const_concat_impl", "const_concat_len", "__const_concat", "__gate_help", "quote", "compile_error", "column", "cfg"}
Lints == {"warnings", "unsafe_code", "dead_code", "unreachable_code", "unused_must_use", "nonstandard_style"}
Places == {"module", "function", "no_implicit_prelude", "nested", "const_block", "macro"}
Envs == {[k |-> "env", pre |-> p, name |-> n] : p \in {"struct", "trait", "type"}, n \in TypeNames}
   \cup {[k |-> "env", pre |-> "mod", name |-> n] : n \in ModNames}
   \cup {[k |-> "env", pre |-> p, name |-> n] : p \in {"const", "fn", "static", "variant", "variant_inside"}, n \in ValueNames}
   \cup {[k |-> "env", pre |-> "macro", name |-> n] : n \in MacroNames}
   \cup {[k |-> "env", pre |-> "lint", name |-> n] : n \in Lints}
   \cup {[k |-> "env", pre |-> "place", name |-> n] : n \in Places}

Shapes ==
  Envs \cup
  {[k |-> "item", derive |-> d, data |-> t, gen |-> g] : d \in Derives, t \in Datas, g \in Generics}
  \cup {[k |-> "cmd", at |-> p, attr |-> a] : p \in CmdPlaces, a \in GoodCmd \cup BadCmd}
  \cup {[k |-> "argattr", at |-> p] : p \in CmdPlaces}
  \cup {[k |-> "doc", at |-> p, text |-> x] : p \in DocPlaces, x \in GoodDoc \cup {"concat!(\"a\", \"b\")", "ABOUT", "1"}}
  \cup {[k |-> "field", attr |-> a, ty |-> t] : a \in FieldAttrs, t \in FieldTypes}
  \cup {[k |-> "variant", attr |-> a] : a \in EnumAttrs}
  \cup {[k |-> "enum", attr |-> a] : a \in EnumRules}

-----------------------------------------------------------------------------
NamedStruct(t) == t \in {"named_struct", "named_empty"}
CommandEnum(t) == t \in {"enum_empty", "enum_unit", "enum_tuple1", "enum_struct", "enum_mixed"}
ItemOk(s) == /\ s.gen = "none"
             /\ CASE s.derive \in {"Parser", "Args"} -> NamedStruct(s.data)
                  [] s.derive = "Subcommand" -> CommandEnum(s.data)
                  [] s.derive = "ValueEnum" -> s.data \in {"enum_empty", "enum_unit"}

\* On a newtype variant the attributes of the inner type count.
CmdOk(s) == s.at # "tuple_variant" /\ s.attr \in GoodCmd

\* Doc comments are arbitrary string literals.
DocOk(s) == s.text \in GoodDoc /\ (s.at = "tuple_variant" => s.text = "\"\"")

ArgType(t) == t \in {"u8", "bool", "Enumv"}
FieldOk(s) ==
  CASE s.attr = "#[command(flatten)]" -> s.ty = "Flat"
    [] s.attr = "#[command(subcommand)]" -> s.ty \in {"Cmd", "Option<Cmd>"}
    [] s.attr \in {"#[arg(long)] #[arg(short)]", "#[arg(long, short)]", "#[arg(long,)]"} -> ArgType(s.ty)
    [] s.attr = "#[arg()]" -> ArgType(s.ty)
    [] OTHER -> FALSE

VariantOk(s) == s.attr \in {"name = \"x\"", "name = \"\"", "name = \"x y\"", "", "name = \"é\""}
RuleOk(s) == s.attr \in {"rename_all = \"kebab-case\"", "rename_all = \"camelCase\"", "rename_all = \"PascalCase\"", "rename_all = \"SCREAMING_SNAKE_CASE\"", "rename_all = \"snake_case\"",
                         "rename_all = \"lower\"", "rename_all = \"UPPER\"", "rename_all = \"verbatim\"", ""}

Ok(s) == CASE s.k = "item" -> ItemOk(s) [] s.k = "cmd" -> CmdOk(s) [] s.k = "argattr" -> FALSE [] s.k = "doc" -> DocOk(s)
           [] s.k = "field" -> FieldOk(s) [] s.k = "variant" -> VariantOk(s) [] s.k = "enum" -> RuleOk(s) [] s.k = "env" -> TRUE

\* No promise: a ValueEnum with unused parameters is an error of Rust's, with used const
\* parameters it works; a doc comment on a newtype variant that is empty is none; a
\* positional flag; doc comments on compositions are not used.
Grey(s) == \/ s.k = "item" /\ s.derive = "ValueEnum" /\ s.gen # "none"
           \/ s.k = "doc" /\ s.at = "tuple_variant" /\ s.text = "\"\""
           \/ s.k = "field" /\ s.attr = "#[arg()]" /\ s.ty = "bool"
           \/ s.k = "cmd" /\ s.at = "tuple_variant" /\ s.attr = ""
           \/ s.k = "doc" /\ s.at \in {"flatten_field", "subcommand_field"}
           \* a constant of another type: may be converted to text
           \/ s.k = "cmd" /\ s.attr = "long_about = 1"

Init == shp \in {s \in Shapes : ~Grey(s)}
Next == FALSE /\ UNCHANGED shp
Spec == Init /\ [][Next]_shp
Emit == PrintT("ROW " \o ToJson(<<shp, Ok(shp)>>))
\* no derive macro takes a tuple-like item, and no item is taken by two families of macros except
\* those with unit variants only
I_Disjoint == shp.k = "item" =>
   /\ shp.data \in {"unit_struct", "tuple_struct0", "tuple_struct1", "union", "enum_tuple0", "enum_tuple2", "enum_bad_first", "enum_bad_middle"} => ~Ok(shp)
   /\ (Ok(shp) /\ shp.derive \in {"Parser", "Args"}) => ~Ok([shp EXCEPT !.derive = "Subcommand"])
=============================================================================
