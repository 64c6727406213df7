//! The build-time front ends: the macros' text processing, the derive macro and the code emitter.
//! `h_front emit`: reads one program descriptor per line, prints the source code emitted for it.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections_core::emit::{CollectionEmitter, CollectionEntry};
use frozen_collections_core::macros as fm;
use prelude::*;
use proc_macro2::TokenStream;
use serde_json::json;
use std::io::{BufRead, Write};
use std::num::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn expand(f: &str, t: TokenStream) -> bool {
    match f {
        "fz_hash_map" => fm::fz_hash_map_macro(t),
        "fz_hash_set" => fm::fz_hash_set_macro(t),
        "fz_ordered_map" => fm::fz_ordered_map_macro(t),
        "fz_ordered_set" => fm::fz_ordered_set_macro(t),
        "fz_scalar_map" => fm::fz_scalar_map_macro(t),
        "fz_scalar_set" => fm::fz_scalar_set_macro(t),
        "fz_string_map" => fm::fz_string_map_macro(t),
        "fz_string_set" => fm::fz_string_set_macro(t),
        "derive" => fm::derive_scalar_macro(t),
        _ => panic!("harness: no macro {f}"),
    }
    .is_ok()
}
fn tokens(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("harness: not tokens: {s}: {e}"))
}
fn emitter(d: &Value) -> CollectionEmitter {
    let b = |f: &str| d[f].as_bool().unwrap_or(false);
    let mut e = CollectionEmitter::new(&syn::parse_str(d["kt"].as_str().unwrap()).unwrap())
        .const_keys(b("ck"))
        .const_values(b("cv"))
        .static_instance(b("static"))
        .mutable(b("mutable"));
    if d["kind"] == "map" {
        e = e.value_type(&syn::parse_quote!(Tv));
    }
    if let Some(s) = d["sym"].as_str() {
        e = e.symbol_name(s);
    }
    if let Some(s) = d["ali"].as_str() {
        e = e.alias_name(s);
    }
    if let Some(s) = d["vis"].as_str() {
        e = e.visibility(syn::parse_str(s).unwrap());
    }
    e
}
fn entries<K>(d: &Value, parse: impl Fn(&str) -> K) -> Vec<CollectionEntry<K>> {
    let s = |v: &Value| v.as_str().unwrap().to_string();
    d["en"].as_array().unwrap().iter().map(|e| {
        let k = parse(&s(&e[0]));
        let ke: syn::Expr = syn::parse_str(&s(&e[1])).unwrap();
        if d["kind"] == "map" { CollectionEntry::map_entry(k, ke, syn::parse_str(&s(&e[2])).unwrap()) } else { CollectionEntry::set_entry(k, ke) }
    }).collect()
}
fn emit(d: &Value) -> Result<TokenStream, String> {
    let e = emitter(d);
    macro_rules! by_type {
        (num: $($n:ident)*; txt: $($t:literal)*) => {
            match (d["fam"].as_str().unwrap(), d["tk"].as_str().unwrap()) {
                $(("hash", stringify!($n)) => e.emit_hash_collection(entries(d, <$n as Key>::parse)),
                  ("ordered", stringify!($n)) => e.emit_ordered_collection(entries(d, <$n as Key>::parse)),
                  ("scalar", stringify!($n)) => e.emit_scalar_collection(entries(d, <$n as Key>::parse)),)*
                ("hash", "str") => e.emit_hash_collection(entries(d, |s| s.to_string())),
                ("ordered", "str") => e.emit_ordered_collection(entries(d, |s| s.to_string())),
                ("string", "str") => e.emit_string_collection(entries(d, |s| s.to_string())),
                // build-time keys of another type than the run-time ones
                ("hash", "refstr") => e.emit_hash_collection(entries(d, |s| { let r: &'static str = Box::leak(s.into()); r })),
                (f, t) => panic!("harness: emit {f} {t}"),
            }
        };
    }
    by_type!(num: u8 u16 u32 u64 usize i8 i16 i32 i64 isize NonZeroU8 NonZeroU16 NonZeroU32 NonZeroU64 NonZeroUsize
        NonZeroI8 NonZeroI16 NonZeroI32 NonZeroI64 NonZeroIsize E1 E2 E5 E9 E300; txt:)
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("emit") {
        std::panic::set_hook(Box::new(|_| {}));
        for line in std::io::stdin().lock().lines() {
            let d: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| emit(&d)));
            let o = match r {
                Ok(Ok(t)) => json!({"id": d["id"], "code": t.to_string()}),
                Ok(Err(e)) => json!({"id": d["id"], "err": e}),
                Err(p) => json!({"id": d["id"], "err": p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| (*x).to_string()))}),
            };
            println!("{o}");
        }
        return;
    }
    run::main(|p, out| {
        for o in p["ops"].as_array().unwrap() {
            let d = &o[1];
            let r = catch_unwind(AssertUnwindSafe(|| match o[0].as_str().unwrap() {
                "macro" => expand(d["fn"].as_str().unwrap(), tokens(d["text"].as_str().unwrap())),
                "derive" => expand("derive", tokens(d["text"].as_str().unwrap())),
                "emitopt" => emit(d).is_ok(),
                x => panic!("harness: op {x}"),
            }));
            let mut e = d.clone();
            e["e"] = o[0].clone();
            match r {
                Ok(ok) => e["ok"] = ok.into(),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
                    if m.starts_with("harness:") {
                        eprintln!("HARNESS ERROR {m}");
                        std::process::exit(3);
                    }
                    e["e"] = "panic".into();
                    e["msg"] = m.into();
                }
            }
            writeln!(out, "{e}").unwrap();
        }
    });
}
