---------------------------- MODULE GenPrograms -----------------------------
(* Enumerates the descriptors of the front ends' input space.               *)
EXTENDS Programs, TLC, Json, SequencesExt
CONSTANT What

Sizes == {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 130, 254, 255, 256, 257, 300, 600}
Desc(forms) == [fam : Fams, kind : Kinds, form : forms, keys : KeyForms, ty : Types, n : Sizes, dup : BOOLEAN]

MacroPrograms == {d \in Desc({"short", "let", "letmut", "static", "pubstatic"}) : MacroLegal(d) /\ (d.dup => ~NeedsDistinct(d))}
KnownBroken   == {d \in Desc({"short", "let", "letmut", "static", "pubstatic"}) : MacroLegal(d) /\ d.dup /\ NeedsDistinct(d)}
EmitPrograms  == {d \in Desc(EmitForms) : EmitLegal(d)}

(* every sequence of up to two key classes, and every short one of the        *)
(* classes that interact                                                    *)
KeySeqs == {<<>>} \cup {<<a>> : a \in KeyClasses} \cup {<<a, b>> : a, b \in KeyClasses}
           \cup {<<a, b, c>> : a, b, c \in {"int", "u8", "i32", "str", "expr", "float"}}
MacroTexts ==
    {[fam |-> f, kind |-> k, form |-> fm, ks |-> ks, ok |-> MacroAccepts(f, fm, ks)] :
        f \in Fams, k \in Kinds, fm \in Forms \cup BadForms, ks \in KeySeqs}
(* longer ones: one class throughout, except at one position                  *)
LongSeqs == {[i \in 1..n |-> IF i = p THEN b ELSE a] :
                n \in {4, 5, 6, 9, 20}, p \in {1, 2, 3, 4, 5, 6, 8, 9, 19, 20},
                a \in {"int", "u8", "i32", "u64", "str", "expr"}, b \in {"int", "u8", "i32", "i64", "str", "expr", "float", "over"}}
LongTexts ==
    {[fam |-> f, kind |-> k, form |-> "let", ks |-> ks, ok |-> MacroAccepts(f, "let", ks)] : f \in Fams, k \in Kinds, ks \in LongSeqs}
Specified == {d \in MacroTexts \cup LongTexts : ~Unspecified(d.fam, d.form, d.ks)}

DeriveTexts ==
    LET vs == {<<>>} \cup {<<a>> : a \in VariantClasses} \cup {<<a, b>> : a, b \in VariantClasses}
              \cup {<<a, b, c>> : a, b, c \in VariantClasses}
    IN  {[item |-> "enum", vs |-> v, ok |-> DeriveAccepts("enum", v)] : v \in vs}
        \cup {[item |-> i, vs |-> <<>>, ok |-> DeriveAccepts(i, <<>>)] : i \in {"struct", "tuplestruct", "unitstruct", "union"}}

EmitOptions == {[static |-> s, mutable |-> m, symbol |-> y, alias |-> a, fam |-> f, ok |-> EmitAccepts(s, m, y, a)] :
                   s, m, y, a \in BOOLEAN, f \in Fams}

Set == CASE What = "macroprograms" -> MacroPrograms
         [] What = "knownbroken" -> KnownBroken
         [] What = "emitprograms" -> EmitPrograms
         [] What = "macrotexts" -> Specified
         [] What = "derivetexts" -> DeriveTexts
         [] What = "emitoptions" -> EmitOptions
ASSUME PrintT(ToJson(SetToSeq(Set)))
=============================================================================
