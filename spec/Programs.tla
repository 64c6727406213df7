----------------------------- MODULE Programs ------------------------------
(***************************************************************************)
(* The front ends that turn source text into collections at build time:     *)
(* the fz_* macros, the code emitter and #[derive(Scalar)].  What they      *)
(* accept, and which of the accepted programs this specification promises   *)
(* to compile and to denote the collection LastWins(entries).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Fams  == {"hash", "ordered", "scalar", "string"}
Kinds == {"map", "set"}

(* --------------------------- macro acceptance --------------------------- *)
(* ks: the class of every key token: an integer literal without suffix       *)
(* ("int") or with one, a string literal, any other literal, or a computed   *)
(* expression; "over" is an unsuffixed literal beyond its type.              *)
Suffixes   == {"i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"}
ScalarLits == Suffixes \cup {"int", "over"}
BadLits    == {"float", "char", "bool", "byte", "bytestr", "badsuffix"}
KeyClasses == ScalarLits \cup BadLits \cup {"str", "expr"}

Forms      == {"short", "let", "letmut", "static", "pubstatic", "cratestatic"}
(* text that is not a collection declaration at all                         *)
BadForms   == {"publet", "pubshort", "staticmut", "nobrace", "notype", "notarget", "trailing", "novalue", "extravalue"}

In(ks) == {ks[i] : i \in DOMAIN ks}
MacroAccepts(fam, form, ks) ==
    /\ form \in Forms
    /\ form = "short" => Len(ks) > 0
    /\ In(ks) \cap BadLits = {}
    /\ fam = "scalar" => "str" \notin In(ks)
    /\ fam = "string" => In(ks) \cap ScalarLits = {}
    /\ Cardinality(In(ks) \cap Suffixes) <= 1
    /\ ~("over" \in In(ks) /\ In(ks) \subseteq ScalarLits)
(* texts on which the front end itself makes no promise: the Rust compiler   *)
(* rejects them afterwards                                                   *)
Unspecified(fam, form, ks) ==
    \/ "str" \in In(ks) /\ In(ks) \cap ScalarLits # {}
    \/ "over" \in In(ks) /\ ~(In(ks) \subseteq ScalarLits)
    \/ "over" \in In(ks) /\ In(ks) \cap Suffixes # {}
    \/ form \in BadForms /\ ks = <<>> /\ form \in {"novalue", "extravalue"}

(* -------------------------- emitter acceptance -------------------------- *)
EmitAccepts(static, mutable, symbol, alias) ==
    /\ ~(static /\ mutable)
    /\ static => symbol
    /\ mutable => symbol
    /\ alias => symbol

(* --------------------------- derive acceptance -------------------------- *)
VariantClasses == {"unit", "tuple", "struct", "disc"}
DeriveAccepts(item, vs) ==
    /\ item = "enum"
    /\ Len(vs) > 0
    /\ \A i \in DOMAIN vs : vs[i] = "unit"

(* ----------------------- programs that have a meaning ------------------- *)
(* keys: how the keys are written: all literals, all computed, or both;      *)
(* ty: integer, enumeration, &'static str, Box<str>, or another owned type;  *)
(* n: number of entries; dup: some key occurs more than once                 *)
KeyForms == {"lit", "mixed", "expr"}
Types    == {"int", "enum", "ref", "box", "own"}
Statics  == {"static", "pubstatic"}

(* what a macro treats the keys as                                          *)
Treat(d) == CASE d.keys = "lit"   -> IF d.ty = "int" THEN "scalar" ELSE "string"
              [] d.keys = "mixed" -> IF d.ty = "int" THEN "scalar" ELSE "string"
              [] d.keys = "expr"  -> d.fam
(* few computed keys are kept in entry order and compared one by one         *)
Scanned(d) == d.n < (IF Treat(d) = "scalar" THEN 8 ELSE 4)

MacroLegal(d) ==
    /\ d.n = 0 => d.keys = "lit" /\ d.form # "short" /\ d.ty \in {"int", "ref"}
    /\ d.keys = "lit" => d.ty \in {"int", "ref"}
    /\ d.keys = "mixed" => d.n >= 2 /\ d.ty \in {"int", "ref", "box"}
    /\ d.fam = "scalar" => d.ty \in {"int", "enum"}
    /\ d.fam = "string" => d.ty \in {"ref", "box"}
    (* computed string keys, from a certain size on, live in FzStringMap,     *)
    (* which owns its keys                                                   *)
    /\ d.keys # "lit" /\ Treat(d) = "string" =>
          (d.ty = "ref") = (Scanned(d) /\ d.ty # "box")
    /\ d.keys = "mixed" /\ d.ty = "box" => ~Scanned(d)
    /\ d.ty = "own" => d.keys = "expr" /\ d.fam \in {"hash", "ordered"} /\ d.form \notin Statics
    /\ d.dup => d.n >= 2

(* A macro whose keys are computed at run time and stored in an array of     *)
(* fixed size needs them to be distinct: the current implementation panics   *)
(* on equal ones (see known-findings.txt).                                   *)
NeedsDistinct(d) ==
    /\ d.keys # "lit"
    /\ Scanned(d) \/ Treat(d) = "ordered"

EmitForms == {"expr", "let", "letmut", "static", "pubstatic"}
EmitLegal(d) ==
    /\ d.keys = "lit"
    /\ d.fam = "scalar" => d.ty \in {"int", "enum"}
    /\ d.fam = "string" => d.ty \in {"ref", "box", "own"}
    /\ d.dup => d.n >= 2

(* the promise: a legal program compiles, and denotes LastWins(entries)      *)
Compiles(d, api) == IF api = "macro" THEN MacroLegal(d) ELSE EmitLegal(d)
=============================================================================
