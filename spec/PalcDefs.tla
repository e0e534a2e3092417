------------------------------ MODULE PalcDefs ------------------------------
(***************************************************************************)
(* The CLI definitions under consideration, as data.  They are written by  *)
(* /verif/gen, which emits the very same definitions as Rust types with    *)
(* palc's derive macros.  The JSON form is SOURCE LEVEL: field identifiers *)
(* and attributes as the user writes them.  What they mean is said by      *)
(* Palc.tla, not by the generator.                                         *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC
Input == JsonDeserialize(IOEnv.PALC_DEFS)
Defs == Input.defs
HelpOn == Input.help       \* is the `help` cargo feature enabled?
=============================================================================
