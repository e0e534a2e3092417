#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the texts live here so that they can be reviewed as a list)."""
import json, os
RT = "src/runtime.rs"; RF = "src/refl.rs"; VA = "src/values.rs"; ER = "src/error.rs"; HE = "src/help.rs"; LI = "src/lib.rs"
DA = "derive/src/derive_args.rs"; DS = "derive/src/derive_subcommand.rs"; DV = "derive/src/derive_value_enum.rs"; CO = "derive/src/common.rs"; DP = "derive/src/derive_parser.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=("Parser::try_parse_from",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
I = ["inputs", "programs"]
p("C01", "The spelling of a named argument never changes what it means",
  "For every CLI definition and every argv, each occurrence of a named argument may be replaced by any other legal spelling of the same argument and value (any of its long names, short names and aliases; `--name value`, `--name=value`, `-n value`, `-n=value`, `-nvalue`) without changing the parsed result. Every declared name and alias reaches its own argument and no other, however many there are and whatever characters they contain, and a name that is not declared (including prefixes, extensions and case variants of declared ones) is rejected. The value after the first `=` is taken verbatim, including further `=` signs and the empty value.",
  I, "all definitions, all names/aliases and all spellings of every argv", "the tests sample a handful of spellings on a few two- or three-argument structs; name tables with many entries, multi-byte short names and combinations of spellings are not reached",
  [RT, RF, DA], [("run_parser splits --name=value and bundles; visit_named", RT), ("RawArgsInfo::get_named binary search over names sorted at expansion time", RF), ("named_map sorting, enc_names", DA)])
p("C02", "Bundled short arguments mean the same as separate ones",
  "For every definition and argv, a bundle `-abc` of value-less short arguments followed by at most one short argument that takes a value is equivalent to writing the members one by one, and the value-taking member consumes exactly the rest of the bundle (after one optional `=`) or, if nothing is left, the next argument. Members are whole Unicode characters; the first member that is unknown, repeated or wrongly used is the one reported, whatever follows it.",
  I, "all bundles over all short-argument sets, including multi-byte characters and non-UTF-8 tails", "tests check a few fixed bundles over ASCII names", [RT], [("bundle loop over char_indices, RawInlineValue::{Eq,Ambiguous,None}", RT)])
p("C03", "Option values are consumed by the declared hyphen and equals rules only",
  "An argument that takes a value consumes the next argv element if and only if no inline value was given and that element is `-`, does not start with `-`, or is allowed by `allow_hyphen_values` (anything) or `allow_negative_numbers` (`-` followed by digits only); otherwise the value is reported missing and the element is not swallowed. With `require_equals` only the `=` form supplies a value. `Option<Option<T>>` yields None when absent, Some(None) for the bare name, Some(Some(v)) for the `=v` form in both long and short spelling, and never consumes the next element; a value given to a flag is rejected.",
  I, "all value policies crossed with all following tokens", "tests check single tokens for each policy; the cross product with token shapes, bundles and positions is not covered", [RT, DA], [("visit_named value selection", RT), ("SetOptionalValuePlace, FlagPlace", RT), ("ACCEPT_HYPHEN_*, REQUIRE_EQ attribute derivation", DA)])
p("C04", "Positional arguments are bound in declaration order, one value each",
  "For every definition and argv the free arguments, in argv order and regardless of how named arguments are interleaved, are assigned to the positional fields in declaration order: one each to single-valued fields, all remaining ones to a variable-length field, and none may be dropped, duplicated or reordered. A surplus free argument is rejected and reported verbatim, an absent optional one is None or empty, and a lone `-` counts as a free argument.",
  I, "all positional shapes (required, optional, defaulted, variable) and all interleavings", "tests cover one or two shapes with a handful of argvs", [RT, DA], [("visit_positional / next_positional", RT), ("direct_fields order: named, positional, var arg, last", DA)])
p("C05", "After `--` everything is a free argument, and only then are `last` fields filled",
  "After the first `--` that is not itself consumed as an option value, every further argv element - including ones that look like options, subcommand names, `--help` or another `--` - is a positional value, byte for byte, and no option, subcommand or help is recognised. If the definition has a `last` field then it receives exactly the elements after `--` and nothing else, and without `--` it is never filled; otherwise binding continues with the next unfilled positional field.",
  I, "every argv and every position of `--`", "tests have a few argvs with `--`; interplay with subcommands, options awaiting values and partially filled positionals is untested", [RT], [("run_parser `--` branch", RT), ("visit_positional is_last / LAST", RT)])
p("C06", "A trailing variable argument swallows the rest of argv opaquely",
  "Once the first value of a `trailing_var_arg` field has been taken, all later argv elements are appended to that field verbatim and in order, including option-like strings, subcommand names, `--` and `--help`; before that point options, subcommands and `--` keep their ordinary meaning.",
  I, "every argv and every switch-over point", "two fixed argvs in the tests", [RT, DA], [("GREEDY handling in visit_positional", RT)])
p("C07", "Subcommands are selected exactly and switch the argument scope",
  "A free argument before `--` that equals (byte for byte) a subcommand name of the current command selects exactly that subcommand, in preference to a positional field; anything else never does. From there on only the chosen subcommand's own arguments, subcommands and positionals apply (plus inherited globals), to any nesting depth and any number of subcommands; subcommand names are the kebab-case variant names. A missing mandatory subcommand and an unrecognised one are rejected, an optional one may be absent, and what was parsed before the subcommand is kept.",
  I, "all subcommand trees (unit, struct and tuple variants, optional or required), all argvs", "tests use small fixed trees, two levels and few names", [RT, RF, DS], [("subcommand branch of run_parser, CommandFrame boundary", RT), ("RawSubcommandInfo::search over sorted map", RF), ("name_map / kebab case / __VARIANT_INFOS indexes", DS)])
p("C08", "Global arguments work below their command and only they cross the boundary",
  "An argument marked `global` may be written at its own command or at any position after any chain of subcommands below it, in any of its spellings, with the same result and the same cardinality checks as if all its occurrences were at one place. An argument of the innermost command (including its flattened arguments) with the same name takes precedence, then nearer ancestors before farther ones; non-global arguments of an ancestor are rejected inside a subcommand, and arguments of a subcommand are never available before it.",
  I, "all subcommand depths, flattening and shadowing combinations", "tests check one or two levels with a single global", [RT], [("Frame::search_named chain with global=true past CommandFrame", RT)])
p("C09", "Flattening a group is equivalent to writing its arguments inline",
  "For every definition, moving named arguments into a flattened `Args` struct (nested to any depth, in any number) does not change which argvs are accepted, the value of any argument, defaulting, requiredness, global visibility or the relative checks inside the group. If names collide, exactly one argument receives the value: the one of the containing struct in preference to flattened ones.",
  I, "all flatten trees and argvs", "tests contain two flatten layouts and few argvs", [RT, DA], [("flatten nesting of __parse closures, ArgsFrame chain", DA), ("search_named through parents", RT)])
p("C10", "No occurrence is lost: single-valued once, multi-valued all in order",
  "A flag, single-valued or optional argument given twice (under any mix of names, spellings and scopes) is rejected as duplicated, never overwritten. A multi-valued argument yields exactly the values of all its occurrences in argv order even when interleaved with other arguments, with `value_delimiter` splitting each occurrence at every delimiter and keeping empty fragments. An absent flag is false, absent Option is None, absent Vec is empty and absent Option<Vec> is None.",
  I, "all argvs with repeated occurrences", "tests check single duplications and short Vecs", [RT], [("FlagPlace/SetValuePlace/SetOptionalValuePlace/VecPlace/VecDelimitedPlace::parse_from", RT), ("extractor()", DA)])
p("C11", "Constraints accept exactly the combinations that satisfy them",
  "A syntactically valid argv is accepted if and only if, in every command entered, all required arguments and mandatory subcommands are present, no two user-given arguments conflict, everything required by a user-given argument is user-given, and an exclusive argument is accompanied by no other argument of its struct and no subcommand. Only what the user wrote counts: defaults never satisfy or violate a constraint, and the order of arguments is irrelevant.",
  I, "all constraint graphs and all subsets of given arguments", "tests check a few subsets of a few fixed constraint graphs", [DA], [("ValidateFinish", DA), ("error_exclusive/error_dependency/error_conflict/error_missing_*", RT)])
p("C12", "Defaults apply exactly when the argument is absent",
  "An argument with `default_value` or `default_value_t` gets its default if and only if the user did not give it (anywhere, including as a global inside a subcommand); a user-given value - even an empty or falsy one - is never replaced, merged or extended, and the default is converted like an inline value (split by the delimiter for delimited lists). Defaults never make an argument required or change how other arguments are parsed.",
  I, "all defaulted field kinds and argvs", "tests check a few kinds with one argv each", [RT, DA], [("set_default / set_default_parse", RT), ("ValidateFinish on-not-set checks", DA)])
p("C13", "Any byte string in argv is handled: no crash, no alteration",
  "For every definition and every argv made of arbitrary bytes (non-UTF-8, empty, very long, control characters, any position of invalid bytes) parsing terminates with a value or an error and never panics, aborts or hangs. Values taken by `OsString`/`PathBuf` arguments are exactly the bytes given, in every spelling; text-typed arguments accept exactly the valid UTF-8 ones and reject the others as invalid values.",
  ["inputs"], "all byte strings as argv elements", "a few non-UTF-8 samples in the tests", [RT, VA, "src/util.rs"], [("utf8_chunks bundle handling, OsStrBytesExt slicing", RT), ("ValueParser impls", VA)])
p("C14", "Values are converted by the type's own parser; enums match declared names",
  "Each value is accepted exactly when the declared type's conversion accepts that exact text (ValueEnum first, then TryFrom<&OsStr>/From, then FromStr), and the field holds exactly that conversion's result. A `ValueEnum` accepts exactly its variants' names - the explicit name, or the identifier under the `rename_all` rule (kebab-case by default) - and yields that variant; with `ignore_case` exactly the ASCII case variants of those names are accepted as well, and without it matching is case-sensitive.",
  I, "all value types, all rename rules, all inputs", "tests contain one enum per rule with fixed identifiers", [VA, DV, CO], [("InferValueParser autoref specialisation", VA), ("Rename::rename, parse_value match", DV), ("MAKE_LOWERCASE", RT)])
p("C15", "Errors blame the first offending element and name the right argument",
  "When parsing fails before the end of argv the error is that of the first offending element in argv order, independent of everything after it, and reports that element's text verbatim (just the name for an unknown option) and the description (names and value name) of the argument it was meant for, plus the accepted values of an enum and the underlying conversion error, which is also the error's `source()`, of its own type. Failures found at the end name an argument (or the subcommand) that really is missing, conflicting or exclusive in the given argv. An error that is not a help request is never turned into help text.",
  I, "all failing argvs", "tests compare messages of a few argvs on few structs", [RT, ER, RF], [("Error Display, with_arg_desc, get_description(index)", ER), ("visit_named error mapping", RT)], ("Error: Display, source, try_into_help",))
p("C16", "Help is shown exactly when asked for, for the command being entered",
  "A `-h` (also inside a bundle) or `--help` reached by the parser as an option yields the help text of the innermost command entered so far, whatever else is missing and whatever follows. It does so if and only if no visible user-defined argument has that name; as an option value, after `--` or inside a trailing variable argument it is ordinary data, and an earlier error is reported instead.",
  I, "all argvs containing -h/--help at any place", "tests render help of a few fixed command lines", [RT, HE], [("visit_named help branch", RT), ("collect_command_prefix", RT)], ("Error::try_into_help",))
p("C17", "Help text lists exactly the definition's visible content",
  "For every definition the help of a command shows its description (doc-comment or long_about), a usage line with the full command path, every non-hidden direct and flattened named argument and positional with its primary names, value name, own doc text and default, and every subcommand with the first line of its own description - each exactly once, under the right entry, in declaration order (flattened ones after direct ones) - followed by the after-help text. Required named arguments and all required, variable-length or last positionals appear in the usage line; hidden arguments appear nowhere. `Parser::render_long_help` returns exactly this text for the top-level command, for every definition (also one whose own arguments are named `--help` or `-h`).",
  ["programs"], "all definitions with docs, defaults, hidden and flattened arguments", "snapshot tests of a few definitions", [HE, DA, RF], [("HelpDisplay / FormatArgsBuilder", DA), ("render_help_into", HE)], ("Parser::render_long_help", "Error::try_into_help"))
p("C18", "Ill-formed definitions are rejected at compile time, well-formed ones compile",
  "A definition with duplicated argument, subcommand or enum value names, illegal names, contradictory or inapplicable attributes, more than one subcommand/variable-length/last field, positionals after a variable-length one, references to unknown fields, flattened positionals or subcommands, or unsupported shapes fails to compile with a diagnostic. Every definition free of these compiles, and compiles to a parser that behaves as declared: also when a `macro_rules!` macro of the user produces it from types, names and literals passed to it, inside functions or under `no_implicit_prelude`, and whatever the items, macros and modules around it are called.",
  ["programs"], "all definitions up to a bound over the attribute language", "a fixed list of UI tests", [DA, DS, DV, CO], [("emit_error!/abort! checks", DA), ("const asserts on flatten / ignore_case", DA)], ("rustc diagnostics of derive(Parser/Args/Subcommand/ValueEnum)",))
p("C19", "Disabling the `help` feature changes nothing but help itself",
  "For every definition and argv that does not ask for help, a build without the `help` feature gives exactly the same result or error as the default build. Without the feature `-h` and `--help` are ordinary undeclared names: rejected as unknown unless user-defined.",
  ["inputs", "programs", "configurations"], "all definitions and argvs under both feature sets", "the tests run under one feature set at a time and compare nothing across", [RT, RF, ER, LI], [("cfg(feature = help) in runtime/refl/error", RT)])
p("C20", "Process-level parse(): exit status, streams and argv[0]",
  "`Parser::parse()` on a valid command line returns the same value as `try_parse_from` and writes nothing; otherwise it terminates the process with exit status 1, writes exactly the error's (or help's) text to standard error (as far as that can be written to) and nothing to standard output, and runs no user code. The first argv element is never interpreted as an argument: it only supplies the program name (its last path component, in any byte string) in help, and an empty argument iterator is an error, not a crash.",
  ["inputs"], "all argv incl. argv[0] as arbitrary bytes", "no test runs parse() in a process", [LI], [("Parser::parse / try_parse_from / Path::file_name", LI)], ("process exit status, stdout, stderr",))
p("C21", "Named arguments are order-independent",
  "In every argv that parses without error up to its end, exchanging two neighbouring complete occurrences of different named arguments, or moving a named occurrence across a neighbouring free argument (within the same command, before any `--` or trailing variable argument, and not across a subcommand name), changes neither acceptance nor any parsed value.",
  I, "all argvs and all adjacent exchanges", "no test permutes argvs", [RT], [("the parser keeps no state between occurrences other than next_positional and the places", RT)])
p("C22", "Calls of the parser are independent of one another",
  "The result of a call - value, error or help text - depends on the definition and its own argv alone. Earlier calls, calls going on in other threads at any interleaving of their argv reads, and calls made from inside it (by the iterator that supplies argv or by a value's own conversion) change nothing in it and are not changed by it.",
  ["schedules", "histories", "inputs"], "all interleavings and nestings of up to three calls over all pairs and triples of definitions and argvs", "each test makes one call at a time and no conversion or iterator in the tests calls the parser", [RT, LI, VA], [("all state of a call lives in the frames and places on its stack", RT), ("try_parse_from maps the caller's iterator lazily", LI)])
p("C23", "The user's own code runs once per use, and not otherwise",
  "A call runs the conversion of a value exactly once for each value (each piece of a delimited one) it binds, in argv order, and before the end of argv nothing else. A default - the `default_value_t` expression, or the conversion of the `default_value` text - runs only for an argument that is absent, exactly once and anew in each call that succeeds. A failing call has run the conversions of everything before the offending element, and nothing of what follows it.",
  ["inputs", "histories"], "all argvs over all kinds of arguments with conversions and default expressions that have side effects", "no conversion or default in the tests has a side effect", [RT, VA, DA], [("Parsable::parse_from of each place, set_default, set_default_parse", RT), ("ValidateFinish: defaults of arguments that are not set", DA)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
