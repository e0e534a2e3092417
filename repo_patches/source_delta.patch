From a1bb2c3428865dd2880debe813574fcf4fa28c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 01/14] fix: accept -s=value for short arguments of type
 Option<Option<_>>

---
 src/runtime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..41edf79 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,8 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // An explicit inline value takes the rest of the raw argument, even if the value is optional.
+    let takes_rest = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -675,9 +677,7 @@ fn visit_named(
     });
 
     match ret {
-        Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
-        }
+        Ok(()) => Ok(if takes_rest { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
             Err(err.with_arg_desc(desc).maybe_render_help(frame))
-- 
2.43.0


From 5d641a56230f3d449475632936fe70791944bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 02/14] fix: reject duplicated subcommand names at compile
 time, as documented

---
 derive/src/derive_subcommand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..61f6efc 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -122,7 +122,11 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
 
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    if let Some(w) = name_map.windows(2).find(|w| variants[w[0]].arg_str == variants[w[1]].arg_str)
+    {
+        emit_error!(variants[w[0]].ident, "duplicated subcommand {:?}", variants[w[0]].arg_str);
+        emit_error!(variants[w[1]].ident.span(), "second variant here");
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From ec699a0ae54fb32d560946d84a4d73ba95aeec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 03/14] fix: strip r# of raw identifiers when deriving argument
 and value names

---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 61f6efc..fc29d28 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -73,7 +74,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
             name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0


From a7419841e63b88cb80817b5e87e561a463f2eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 04/14] fix: report ill-formed subcommand variants instead of
 panicking in the derive macro

---
 derive/src/derive_subcommand.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index fc29d28..bfd8e53 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -64,18 +64,14 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
-
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -121,6 +117,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     if let Some(w) = name_map.windows(2).find(|w| variants[w[0]].arg_str == variants[w[1]].arg_str)
-- 
2.43.0


From 8d00200151cd0bc5aaa4e8fcc62fa90d10f4035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 05/14] fix: apply ignore_case to each value rather than to the
 raw argument

Lowercasing the whole raw argument before splitting it made upper-case
value delimiters ineffective (and lower-case ones match upper-case
text), reported altered input in errors, and did not cover
default_value, which then panicked on a default in another case.
---
 derive/src/derive_args.rs |  5 ++++-
 src/error.rs              |  5 +++++
 src/lib.rs                |  2 +-
 src/runtime.rs            |  9 +--------
 src/shared.rs             |  2 +-
 src/values.rs             | 17 +++++++++++++++++
 6 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 6d55303..9dc4f5d 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -153,11 +153,14 @@ impl FieldInfo<'_> {
     fn initializer(&self) -> TokenStream {
         let value_ty = self.value_ty;
         // See also `palc::values::InferValueParser`.
-        let value_parser = quote_spanned! {value_ty.span()=>
+        let mut value_parser = quote_spanned! {value_ty.span()=>
             __rt::assert_auto_infer_value_parser_ok(
                 (&&&__rt::PhantomData::<#value_ty>).__palc_infer_value_parser()
             )
         };
+        if self.attrs.contains(ArgAttrs::MAKE_LOWERCASE) {
+            value_parser = quote! { __rt::IgnoreCaseParser(#value_parser) };
+        }
         match self.kind {
             MagicKind::Bool => quote! { __rt::FlagPlace(__rt::None) },
             MagicKind::Value | MagicKind::Option => {
diff --git a/src/error.rs b/src/error.rs
index a68e7ba..f9baeff 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -187,6 +187,11 @@ impl Error {
         if let Some(help) = self.0.help.take() { Ok(help) } else { Err(self) }
     }
 
+    pub(crate) fn replace_input(mut self, input: OsString) -> Self {
+        self.0.input = Some(input);
+        self
+    }
+
     pub(crate) fn with_source(mut self, source: DynStdError) -> Self {
         self.0.source = Some(source);
         self
diff --git a/src/lib.rs b/src/lib.rs
index 557b8a6..8685f4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub mod __private {
     pub use std::{assert, concat, env, format_args, unimplemented, unreachable};
 
     pub use crate::values::{
-        InferDisplayDefaultValue, InferValueParser, ValueEnum, ValueParser,
+        IgnoreCaseParser, InferDisplayDefaultValue, InferValueParser, ValueEnum, ValueParser,
         assert_auto_infer_value_parser_ok, assert_impl_display_default_value,
     };
 
diff --git a/src/runtime.rs b/src/runtime.rs
index 41edf79..c4e995f 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -667,14 +667,7 @@ fn visit_named(
             }
         }
     }
-    .and_then(|mut value| {
-        if let Some(value) = &mut value
-            && attrs.contains(ArgAttrs::MAKE_LOWERCASE)
-        {
-            value.to_mut().make_ascii_lowercase();
-        }
-        place.parse_from(value.as_deref())
-    });
+    .and_then(|value| place.parse_from(value.as_deref()));
 
     match ret {
         Ok(()) => Ok(if takes_rest { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
diff --git a/src/shared.rs b/src/shared.rs
index c965111..3c59fef 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -34,7 +34,7 @@ impl ArgAttrs {
     pub const ACCEPT_HYPHEN_NUM: Self = Self(1 << 19);
     /// Is this a global argument?
     pub const GLOBAL: Self = Self(1 << 20);
-    /// Make the value lowercase before parsing it?
+    /// Match the value ASCII-case-insensitively? See `palc::values::IgnoreCaseParser`.
     pub const MAKE_LOWERCASE: Self = Self(1 << 21);
     /// Is this a variable-length positional argument that consumes indetermined
     /// number of arguments?
diff --git a/src/values.rs b/src/values.rs
index 636b328..fae2c90 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -157,6 +157,23 @@ impl<T: ValueEnum + 'static> ValueParser for ValueEnumParser<T> {
     }
 }
 
+/// Wraps a [`ValueEnumParser`] for `arg(ignore_case)`.
+///
+/// Each (delimiter-separated) value is made lowercase only for matching, so that delimiters,
+/// default values and inputs in error messages are not affected.
+pub struct IgnoreCaseParser<P>(pub P);
+impl<P> sealed::Sealed for IgnoreCaseParser<P> {}
+impl<P: ValueParser> ValueParser for IgnoreCaseParser<P> {
+    type Output = P::Output;
+    type AssertInferOk = P::AssertInferOk;
+
+    const POSSIBLE_INPUTS_NUL: &'static str = P::POSSIBLE_INPUTS_NUL;
+
+    fn parse(v: &OsStr) -> Result<P::Output> {
+        P::parse(&v.to_ascii_lowercase()).map_err(|err| err.replace_input(v.to_owned()))
+    }
+}
+
 struct PossibleValues(&'static str);
 
 impl fmt::Display for PossibleValues {
-- 
2.43.0


From a50b457bf2367dabdfcde60b905c8d5e79449a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 06/14] fix: keep locals of generated code apart from items in
 user expressions

The derived code kept the state of each field in a local variable of the same name, and default
expressions are evaluated in its scope: `#[arg(default_value_t = jobs())] jobs: u32` did not
compile, and neither did a field having the name of a constant in scope. Prefix these variables.
---
 derive/src/common.rs      |  3 ++-
 derive/src/derive_args.rs | 42 ++++++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 2235298..8b4c9da 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 use syn::{Attribute, GenericArgument, LitBool, LitChar, LitStr, PathArguments, Type};
 use syn::{Token, bracketed, token};
 
+use crate::derive_args::LocalIdent;
 use crate::error::try_syn;
 use crate::shared::ArgAttrs;
 
@@ -508,7 +509,7 @@ impl Parse for FieldIdent {
 
 impl ToTokens for FieldIdent {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        self.0.to_tokens(tokens);
+        LocalIdent(&self.0).to_tokens(tokens);
     }
 }
 
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 9dc4f5d..1c13616 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -118,7 +118,7 @@ impl ArgsParse<'_> {
 
 struct FieldInfo<'i> {
     // Basics //
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     kind: MagicKind,
     /// The type used for parser inference, with `Option`/`Vec` stripped.
     value_ty: &'i syn::Type,
@@ -247,17 +247,30 @@ impl MagicKind {
 
 #[derive(Clone, Copy)]
 struct SubcommandInfo<'i> {
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     ty: &'i syn::Type,
     optional: bool,
 }
 
 #[derive(Clone, Copy)]
 struct FlattenFieldInfo<'i> {
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     ty: &'i syn::Type,
 }
 
+/// The local variable of a field in generated code.
+///
+/// It is prefixed, so that it neither shadows items used in user expressions, eg. in
+/// `#[arg(default_value_t = jobs())] jobs: u32`, nor is taken for a constant of that name.
+#[derive(Clone, Copy)]
+pub struct LocalIdent<'i>(pub &'i Ident);
+
+impl ToTokens for LocalIdent<'_> {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
+        quote::format_ident!("__arg_{}", self.0).to_tokens(tokens);
+    }
+}
+
 fn encode_long_name(name: &LitStr) -> String {
     let s = name.value();
     if s.is_empty() {
@@ -322,14 +335,14 @@ pub fn expand_args_parse<'i>(
                 };
                 if let Some(prev) = &subcommand {
                     emit_error!(ident, "duplicated subcommand");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 } else {
-                    subcommand = Some(SubcommandInfo { ident, ty, optional });
+                    subcommand = Some(SubcommandInfo { ident: LocalIdent(ident), ty, optional });
                 }
                 continue;
             }
             ArgOrCommand::Command(ArgsCommandMeta::Flatten) => {
-                flatten_fields.push(FlattenFieldInfo { ident, ty: &field.ty });
+                flatten_fields.push(FlattenFieldInfo { ident: LocalIdent(ident), ty: &field.ty });
                 continue;
             }
         };
@@ -480,7 +493,7 @@ pub fn expand_args_parse<'i>(
             };
 
             named_fields.push(FieldInfo {
-                ident,
+                ident: LocalIdent(ident),
                 kind,
                 value_ty,
                 enc_names,
@@ -532,7 +545,7 @@ pub fn expand_args_parse<'i>(
             attrs.set(ArgAttrs::GREEDY, arg.trailing_var_arg | arg.last);
 
             let info = FieldInfo {
-                ident,
+                ident: LocalIdent(ident),
                 kind,
                 value_ty,
                 enc_names: Vec::new(),
@@ -558,13 +571,13 @@ pub fn expand_args_parse<'i>(
 
                 if let Some(prev) = last_field.replace(info) {
                     emit_error!(ident, "duplicated arg(last)");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 }
             } else if is_variable_num {
                 // Variable length positional argument.
                 if let Some(prev) = var_arg_field.replace(info) {
                     emit_error!(ident, "duplicated variable-length arguments");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 }
             } else {
                 // Single positional argument.
@@ -574,7 +587,7 @@ pub fn expand_args_parse<'i>(
                         ident,
                         "cannot have more positional arguments after a variable-length positional argument"
                     );
-                    emit_error!(prev.ident, "previous variable-length argument");
+                    emit_error!(prev.ident.0, "previous variable-length argument");
                 } else {
                     positional_fields.push(info);
                 }
@@ -599,7 +612,7 @@ pub fn expand_args_parse<'i>(
     // Resolve field references for constraints.
     let ident_idx_map = direct_fields
         .iter()
-        .map(|f| (f.ident.to_string(), f.attrs.get_index()))
+        .map(|f| (f.ident.0.to_string(), f.attrs.get_index()))
         .collect::<HashMap<String, u8>>();
     let resolve_field_refs = |idents: &[FieldIdent]| -> Option<Vec<u8>> {
         if idents.is_empty() {
@@ -628,7 +641,7 @@ pub fn expand_args_parse<'i>(
         && let Some(f) = direct_fields.iter().find(|f| f.exclusive)
     {
         emit_error!(
-            f.ident,
+            f.ident.0,
             "TODO: arg(exclusive) is not supported on struct containing arg(flatten) yet",
         );
     }
@@ -662,6 +675,7 @@ impl ToTokens for ArgsParse<'_> {
                 (*ident, quote! { __rt::None::<#ty> }, maybe_unwrap)
             }))
             .collect::<(Vec<_>, Vec<_>, Vec<_>)>();
+        let field_idents = state_idents.iter().map(|ident| ident.0);
         let direct_field_idents = self.direct_fields.iter().map(|f| f.ident);
 
         // Assertions to be forced to evaluate.
@@ -731,7 +745,7 @@ impl ToTokens for ArgsParse<'_> {
             #validate_finish
 
             *__out = __rt::Some(#output_ctor {
-                #(#state_idents : #state_idents #state_extractors,)*
+                #(#field_idents : #state_idents #state_extractors,)*
             });
             __rt::Ok(())
         });
-- 
2.43.0


From 3c53a637e2b3794af803eafa8b26ca96dbeb000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 07/14] fix: exit with status 1 from parse() even if stderr is
 not writable

eprintln! panics (status 101) when the text cannot be written, eg. on a closed pipe.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8685f4f..30b6e36 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 //! TODO: Documentations.
 #![forbid(unsafe_code)]
-use std::{ffi::OsString, path::Path};
+use std::{ffi::OsString, io::Write, path::Path};
 
 use error::ErrorKind;
 use runtime::{ParserInternal, RawParser};
@@ -70,7 +70,8 @@ pub trait Parser: ParserInternal + Sized + 'static {
         match Self::try_parse_from(std::env::args_os()) {
             Ok(v) => v,
             Err(err) => {
-                eprintln!("{err}");
+                // Not `eprintln!`, which panics when stderr is not writable, eg. a closed pipe.
+                _ = writeln!(std::io::stderr(), "{err}");
                 std::process::exit(1);
             }
         }
-- 
2.43.0


From 208a896454280dcd79d66b8f744b1ed2291f8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 08/14] fix: show only the long name in usage also for a
 non-ASCII short name
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`-é, --key <VALUE>` was shown in full, unlike `-k, --key <VALUE>`.
---
 derive/src/derive_args.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 1c13616..b27c147 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1112,10 +1112,11 @@ impl FormatArgsBuilder {
     fn maybe_push_usage_for(&mut self, f: &FieldInfo<'_>) {
         self.template.push(' ');
         // For "-k, --key <VALUE>", show its usage as "--key <VALUE>".
-        let desc = if matches!(f.description.as_bytes(), [b'-', b, b',',  ..] if *b != b'-') {
-            &f.description[4..]
-        } else {
-            &f.description
+        let mut chars = f.description.strip_prefix('-').unwrap_or_default().chars();
+        let desc = match (chars.next(), chars.as_str().strip_prefix(", --")) {
+            // The short name can be any character, not only an ASCII one.
+            (Some(short), Some(_)) if short != '-' => &chars.as_str()[2..],
+            _ => &f.description,
         };
         self.push_arg(desc);
     }
-- 
2.43.0


From 4049a30e686b6251784f26b33bd1b1165db6181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 09/14] fix: name the positional argument in errors about its
 value

An invalid value of a positional argument was reported for '<unknown argument>'.
---
 src/runtime.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index c4e995f..d01bc0d 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -589,10 +589,12 @@ fn visit_positional(
     }
 
     let place = &mut *frame.fields[usize::from(attrs.get_index())];
-    place.parse_from(Some(&arg))?;
+    let info = frame.info;
+    let with_desc = |err: crate::Error| err.with_arg_desc(info.get_description(attrs.get_index()));
+    place.parse_from(Some(&arg)).map_err(with_desc)?;
     if attrs.contains(ArgAttrs::GREEDY) {
         for arg in &mut *p.iter {
-            place.parse_from(Some(&arg))?;
+            place.parse_from(Some(&arg)).map_err(with_desc)?;
         }
         // Everything is consumed here. The outer loop should exit as well.
     }
-- 
2.43.0


From cb4c2421624dc0b1a53f87a3b928c4db15e00b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 10/14] fix: render_long_help of commands with their own --help

It parsed `--help` and panicked when that was an argument of the user.
---
 src/lib.rs     | 9 ++++++++-
 src/runtime.rs | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30b6e36..1c0980c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,8 @@ mod values;
 mod help;
 
 pub use crate::error::Error;
+#[cfg(feature = "help")]
+use crate::runtime::ArgsFrame;
 use crate::runtime::ParserFlavor;
 pub type Result<T, E = Error> = std::result::Result<T, E>;
 
@@ -90,7 +92,12 @@ pub trait Parser: ParserInternal + Sized + 'static {
 
     #[cfg(feature = "help")]
     fn render_long_help(argv0: impl Into<String>) -> String {
-        Self::try_parse_from([argv0.into().into(), OsString::from("--help")])
+        // Not by parsing `--help`, which may be an argument of the user.
+        let mut render =
+            |frame: &mut ArgsFrame| Err(Error::from(ErrorKind::Help).maybe_render_help(frame));
+        let arg0 = OsString::from(argv0.into());
+        let program_name = Path::new(&arg0).file_name().unwrap_or(arg0.as_ref());
+        Self::__Flavor::run_parser(&mut render, program_name)
             .err()
             .unwrap()
             .try_into_help()
diff --git a/src/runtime.rs b/src/runtime.rs
index d01bc0d..75065ef 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -63,13 +63,13 @@ pub trait ParserInternal: Sized {
 }
 
 pub(crate) trait ParserFlavor<T>: Sized {
-    fn run_parser(p: &mut RawParser, program_name: &OsStr) -> Result<T>;
+    fn run_parser(p: &mut dyn RunParser, program_name: &OsStr) -> Result<T>;
 }
 
 /// The fallback type for graceful failing from proc-macro.
 pub struct FallbackParserFlavor;
 impl<T> ParserFlavor<T> for FallbackParserFlavor {
-    fn run_parser(_p: &mut RawParser, _program_name: &OsStr) -> Result<T> {
+    fn run_parser(_p: &mut dyn RunParser, _program_name: &OsStr) -> Result<T> {
         // Never called at runtime.
         unreachable!()
     }
@@ -80,7 +80,7 @@ impl<T> ParserFlavor<T> for FallbackParserFlavor {
 /// It ignores the 0-th argument (aka. `argv[0]`) and parsing arguments after.
 pub struct StructParserFlavor<A>(A);
 impl<A: Args> ParserFlavor<A> for StructParserFlavor<A> {
-    fn run_parser(p: &mut RawParser, program_name: &OsStr) -> Result<A> {
+    fn run_parser(p: &mut dyn RunParser, program_name: &OsStr) -> Result<A> {
         let mut out = None;
         let mut frame = CommandFrame {
             #[cfg(feature = "help")]
-- 
2.43.0


From db51f9aa9676d5fd7d2d8e510db931d15585acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 11/14] fix: refer to names through the private module in
 derived code

User items named `u8`, and extension traits with methods like `is_some`
or `precision`, were picked up by the generated code.
---
 derive/src/derive_args.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index b27c147..48ec85e 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -767,9 +767,9 @@ impl ToTokens for ValidateFinish<'_> {
             let subcmd_is_set = def
                 .subcommand
                 .as_ref()
-                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as u8 });
+                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as __rt::u8 });
             tokens.extend(quote! {
-                let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
+                let __total_args = #((#direct_idents.0.is_some() as __rt::u8))+* #subcmd_is_set;
             });
         }
 
@@ -870,7 +870,7 @@ impl ToTokens for ValidateFinish<'_> {
             .filter(|f| f.kind == MagicKind::Value && !f.required)
             .map(|f| f.ident);
         tokens.extend(quote! {
-            if __out.is_some() #(|| #flatten_idents.is_none())* #(|| #set_via_default_idents.0.is_none())* {
+            if __rt::Option::is_some(__out) #(|| #flatten_idents.is_none())* #(|| #set_via_default_idents.0.is_none())* {
                 __rt::unreachable_nounwind();
             }
         });
@@ -1028,7 +1028,7 @@ impl ToTokens for HelpDisplay<'_> {
                     // There are several bugs that we may run into even after 1.89.
                     // Rustc bug: <https://github.com/rust-lang/rust/issues/145422>
                     // Clippy bug: <https://github.com/rust-lang/rust-clippy/issues/16736>
-                    match __f.precision().unwrap_or(0) {
+                    match __rt::fmt::Formatter::precision(__f).unwrap_or(0) {
                         #arms
                         _ => __rt::Ok(())
                     }
-- 
2.43.0


From 811175d97992372abe4f9e322cc2bbace5c642da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 12/14] fix: recognise argument types passed through
 macro_rules

A field type given as `$ty:ty` comes in an invisible group, so that eg. `bool`
was an option with a value and `Option<T>` did not compile.
---
 derive/src/common.rs      | 10 +++++++++-
 derive/src/derive_args.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 8b4c9da..57eecc9 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -16,12 +16,20 @@ pub const TY_BOOL: &str = "bool";
 pub const TY_OPTION: &str = "Option";
 pub const TY_VEC: &str = "Vec";
 
+/// Strip invisible groups, in which types passed via `$ty:ty` of `macro_rules!` are wrapped.
+pub fn strip_group(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 /// `TyCtor<ArgTy>` => `ArgTy`. `ty_ctor` must be a single-identifier path.
 ///
 /// This is matched literally and does NOT try to be smart, i.e.
 /// it does not recognize absolute paths or unwrap parenthesis.
 pub fn strip_ty_ctor<'i>(ty: &'i Type, ty_ctor: &str) -> Option<&'i Type> {
-    if let Type::Path(syn::TypePath { qself: None, path }) = ty
+    if let Type::Path(syn::TypePath { qself: None, path }) = strip_group(ty)
         && path.leading_colon.is_none()
         && path.segments.len() == 1
     {
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 48ec85e..ca0aa27 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -8,7 +8,7 @@ use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
 use crate::common::{
     ArgOrCommand, ArgsCommandMeta, CommandMeta, Doc, FieldIdent, Override, TY_BOOL, TY_OPTION,
-    TY_VEC, strip_ty_ctor, wrap_anon_item,
+    TY_VEC, strip_group, strip_ty_ctor, wrap_anon_item,
 };
 use crate::error::{Result, catch_errors};
 use crate::shared::ArgAttrs;
@@ -210,7 +210,7 @@ enum MagicKind {
 
 impl MagicKind {
     fn classify(ty: &syn::Type) -> (Self, &syn::Type) {
-        let syn::Type::Path(syn::TypePath { qself: None, path }) = ty else {
+        let syn::Type::Path(syn::TypePath { qself: None, path }) = strip_group(ty) else {
             return (MagicKind::Value, ty);
         };
         if path.is_ident(TY_BOOL) {
-- 
2.43.0


From 576159d0f07f8027e36b5a4de44287f20c5bf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 13/14] fix: references to fields across macro_rules contexts

In a definition produced by a macro, the name in `conflicts_with` or `requires`
and the field it names may have different hygiene contexts.
---
 derive/src/derive_args.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index ca0aa27..d347d48 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -612,18 +612,22 @@ pub fn expand_args_parse<'i>(
     // Resolve field references for constraints.
     let ident_idx_map = direct_fields
         .iter()
-        .map(|f| (f.ident.0.to_string(), f.attrs.get_index()))
-        .collect::<HashMap<String, u8>>();
-    let resolve_field_refs = |idents: &[FieldIdent]| -> Option<Vec<u8>> {
+        .map(|f| (f.ident.0.to_string(), (f.attrs.get_index(), f.ident.0.span())))
+        .collect::<HashMap<String, (u8, Span)>>();
+    let resolve_field_refs = |idents: &mut [FieldIdent]| -> Option<Vec<u8>> {
         if idents.is_empty() {
             return None;
         }
         // NB: Generator expects resolved list has the same length with the original one.
         // Here we return `None` as soon as any error is encountered.
         idents
-            .iter()
+            .iter_mut()
             .map(|ident| match ident_idx_map.get(&ident.0.to_string()) {
-                Some(&idx) => Ok(idx),
+                Some(&(idx, span)) => {
+                    // With macros, the reference and the field may come from different contexts.
+                    ident.0.set_span(span);
+                    Ok(idx)
+                }
                 _ => {
                     emit_error!(ident.0, "field not found");
                     Err(())
@@ -633,8 +637,8 @@ pub fn expand_args_parse<'i>(
             .ok()
     };
     for f in &mut direct_fields {
-        f.dependencies_idx = resolve_field_refs(&f.dependencies);
-        f.conflicts_idx = resolve_field_refs(&f.conflicts);
+        f.dependencies_idx = resolve_field_refs(&mut f.dependencies);
+        f.conflicts_idx = resolve_field_refs(&mut f.conflicts);
     }
 
     if !flatten_fields.is_empty()
-- 
2.43.0


From e3beaa94f54686734508e77def53942fc6620eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 14/14] fix: literal defaults beyond an i32 are values of their
 field's type

---
 derive/src/derive_args.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index d347d48..c763c6e 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1092,10 +1092,15 @@ impl FormatArgsBuilder {
                     // `format_args` optimization.
                     // The default type checking will still happen inside
                     // `finish`, so skipping this check does not matter.
-                    if let Ok(
-                        Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Float(_) | Lit::Int(_),
-                    ) = syn::parse2::<Lit>(e.clone())
-                    {
+                    //
+                    // This is only for those which are the same without a type: an unsuffixed
+                    // literal is an `i32` or `f64` there, whatever the type of the field is.
+                    let is_direct = match syn::parse2::<Lit>(e.clone()) {
+                        Ok(Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_)) => true,
+                        Ok(Lit::Int(i)) => i.base10_parse::<i32>().is_ok(),
+                        _ => false,
+                    };
+                    if is_direct {
                         e
                     } else {
                         &quote_spanned! {e.span()=>
-- 
2.43.0

