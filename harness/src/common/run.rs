//! Executes plans (one JSON session per line) on the real collections and records what happened.
use crate::key::Key;
use crate::obj::*;
use crate::ser::{Claim, Doc, Enc};
use crate::track::{self, BhKind, Tv};
use serde::de::{Deserialize, DeserializeOwned};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub enum Built<T> {
    Ok(T),
    Refused,
}

/// Entries of a construction, as universe indices and values.
pub struct Src<'a> {
    pub en: &'a [(i64, i64)],
}
fn esc(s: &str, all: bool) -> String {
    if !all {
        return serde_json::to_string(s).unwrap();
    }
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        o.push_str(&format!("\\u{u:04x}"));
    }
    o.push('"');
    o
}
impl Src<'_> {
    pub fn vec<K: Key>(&self) -> Vec<(K, Tv)> {
        self.en.iter().map(|(k, v)| (K::nth(*k), Tv::new(*v))).collect()
    }
    pub fn keys<K: Key>(&self) -> Vec<K> {
        self.en.iter().map(|(k, _)| K::nth(*k)).collect()
    }
    fn jkey<K: Key>(k: i64) -> Value {
        serde_json::to_value(K::nth(k)).unwrap()
    }
    fn jstr<K: Key>(k: i64, all: bool, quote: bool) -> String {
        match Self::jkey::<K>(k) {
            Value::String(s) => esc(&s, all),
            o if quote => format!("\"{o}\""),
            o => o.to_string(),
        }
    }
    pub fn jmap<K: Key>(&self, all: bool) -> String {
        let v: Vec<String> = self.en.iter().map(|(k, v)| format!("{}:{}", Self::jstr::<K>(*k, all, true), v)).collect();
        format!("{{{}}}", v.join(","))
    }
    pub fn jseq<K: Key>(&self, all: bool) -> String {
        let v: Vec<String> = self.en.iter().map(|(k, _)| Self::jstr::<K>(*k, all, false)).collect();
        format!("[{}]", v.join(","))
    }
    pub fn emap<K: Key>(&self, fmt: &str) -> Enc {
        Enc::of(fmt, &crate::ser::Pairs(self.en.iter().map(|(k, v)| (K::nth(*k), *v)).collect())).unwrap()
    }
    pub fn eseq<K: Key>(&self, fmt: &str) -> Enc { Enc::of(fmt, &self.keys::<K>()).unwrap() }
    pub fn pairs<K: Key>(&self) -> Vec<(Value, Value)> {
        self.en.iter().map(|(k, v)| (Self::jkey::<K>(*k), Value::from(*v))).collect()
    }
    pub fn array<K: Key, const N: usize>(&self) -> [(K, Tv); N] {
        match self.vec::<K>().try_into() {
            Ok(a) => a,
            Err(_) => panic!("array route"),
        }
    }
    pub fn karray<K: Key, const N: usize>(&self) -> [K; N] {
        match self.keys::<K>().try_into() {
            Ok(a) => a,
            Err(_) => panic!("array route"),
        }
    }
}
pub fn de<T: DeserializeOwned>(route: &str, text: impl Fn(bool) -> String, pairs: impl Fn() -> Vec<(Value, Value)>, enc: impl Fn(&str) -> Enc) -> T {
    match route {
        "bin" | "cbor" => enc(route).read().unwrap(),
        "json" => serde_json::from_str(&text(false)).unwrap(),
        "jsonesc" => serde_json::from_str(&text(true)).unwrap(),
        "reader" => serde_json::from_reader(text(false).as_bytes()).unwrap(),
        "readeresc" => serde_json::from_reader(text(true).as_bytes()).unwrap(),
        "typed" => {
            let p = pairs();
            let n = p.len();
            T::deserialize(Claim { it: p.into_iter().peekable(), n: Some(n) }).unwrap()
        }
        "nohint" => T::deserialize(Claim { it: pairs().into_iter().peekable(), n: None }).unwrap(),
        "badhint" => {
            let p = pairs();
            let n = p.len() / 2;
            T::deserialize(Claim { it: p.into_iter().peekable(), n: Some(n) }).unwrap()
        }
        "hugehint" => T::deserialize(Claim { it: pairs().into_iter().peekable(), n: Some(usize::MAX) }).unwrap(),
        _ => panic!("harness: unknown route {route}"),
    }
}
/// Generic construction routes of a frozen map.
#[macro_export]
macro_rules! map_routes {
    ($m:ty, $k:ty, $route:expr, $src:expr, new: $new:expr, de: $de:ident) => {{
        let m: $m = match $route {
            "new" => $new,
            "iter" => $src.vec::<$k>().into_iter().collect(),
            "filter" => $src.vec::<$k>().into_iter().filter(|_| true).collect(),
            "default" if $src.en.is_empty() => Default::default(),
            "array" => $crate::map_routes!(@arr $m, $k, $src, 0 1 2 3 4 5 6 7 8 9 10),
            #[allow(unused_variables)]
            r => $crate::map_routes!(@de $de, $k, r, $src),
        };
        m
    }};
    (@arr $m:ty, $k:ty, $src:expr, $($n:literal)*) => {
        match $src.en.len() {
            $($n => <$m>::from($src.array::<$k, $n>()),)*
            _ => $src.vec::<$k>().into_iter().collect(),
        }
    };
    (@de yes, $k:ty, $r:expr, $src:expr) => { $crate::run::de($r, |e| $src.jmap::<$k>(e), || $src.pairs::<$k>(), |f| $src.emap::<$k>(f)) };
    (@de no, $k:ty, $r:expr, $src:expr) => { panic!("harness: no such route") };
}
#[macro_export]
macro_rules! set_routes {
    ($m:ty, $k:ty, $route:expr, $src:expr, new: $new:expr, map: $map:expr) => {{
        let m: $m = match $route {
            "new" => $new,
            "map" => $map,
            "iter" => $src.keys::<$k>().into_iter().collect(),
            "filter" => $src.keys::<$k>().into_iter().filter(|_| true).collect(),
            "default" if $src.en.is_empty() => Default::default(),
            "array" => $crate::set_routes!(@arr $m, $k, $src, 0 1 2 3 4 5 6 7 8 9 10),
            r => $crate::run::de(r, |e| $src.jseq::<$k>(e), || $src.pairs::<$k>(), |f| $src.eseq::<$k>(f)),
        };
        m
    }};
    (@arr $m:ty, $k:ty, $src:expr, $($n:literal)*) => {
        match $src.en.len() {
            $($n => <$m>::from($src.karray::<$k, $n>()),)*
            _ => $src.keys::<$k>().into_iter().collect(),
        }
    };
}

pub type MB<K> = Built<Box<dyn MapObj<K>>>;
pub type SB<K> = Built<Box<dyn SetObj<K>>>;
pub trait Fam<K: Key> {
    fn map(&self, ty: &str, route: &str, s: &Src) -> MB<K>;
    fn set(&self, ty: &str, route: &str, s: &Src) -> SB<K>;
    fn index(&self, _: &K) -> Option<usize> { None }
    /// tries to read a document as `ty`: did it succeed
    fn parse(&self, ty: &str, _: &str) -> bool { panic!("harness: cannot parse {ty}") }
    fn map_from(&self, ty: &str, _: &Enc) -> Result<Box<dyn MapObj<K>>, String> { panic!("harness: cannot read {ty}") }
    fn set_from(&self, ty: &str, _: &Enc) -> Result<Box<dyn SetObj<K>>, String> { panic!("harness: cannot read {ty}") }
    fn special(&self, op: &str, _: &Value) -> Vec<Value> { panic!("harness: unknown op {op}") }
}
pub fn parses<'a, T: Deserialize<'a>>(t: &'a str) -> bool { serde_json::from_str::<T>(t).is_ok() }

pub fn read_map<K: Key, M: DeserializeOwned>(t: &Enc) -> Result<Box<dyn MapObj<K>>, String>
where
    Gen<M>: MapObj<K> + 'static,
{
    t.read::<M>().map(|m| Box::new(Gen(m)) as Box<dyn MapObj<K>>)
}
pub fn read_set<K: Key, M: DeserializeOwned>(t: &Enc) -> Result<Box<dyn SetObj<K>>, String>
where
    Gen<M>: SetObj<K> + 'static,
{
    t.read::<M>().map(|m| Box::new(Gen(m)) as Box<dyn SetObj<K>>)
}

pub struct Session<'f, K: Key> {
    fam: &'f dyn Fam<K>,
    maps: BTreeMap<i64, Box<dyn MapObj<K>>>,
    sets: BTreeMap<i64, Box<dyn SetObj<K>>>,
    iters: BTreeMap<i64, (Option<BoxIter>, String)>,
    why: String,
}
fn i(v: &Value) -> i64 { v.as_i64().unwrap_or_else(|| panic!("harness: int expected, got {v}")) }
fn s(v: &Value) -> &str { v.as_str().unwrap_or_else(|| panic!("harness: string expected, got {v}")) }
fn ints(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(i).collect() }
fn opt(v: i64) -> Option<i64> { if v < 0 { None } else { Some(v) } }
fn sz(n: usize) -> i64 { if n > 2_000_000_000 { 2_000_000_000 } else { n as i64 } }
/// Describes ascending entries by segments (see `expand`).
fn compress(items: &[(i64, i64)], keys_only: bool) -> Vec<(i64, i64, i64, i64)> {
    let mut out: Vec<(i64, i64, i64, i64)> = Vec::new();
    for &(k, v) in items {
        if let Some(l) = out.last_mut() {
            let d = k - l.0;
            if l.1 == 1 && d > 0 && (keys_only || v == l.3 + 1) {
                (l.1, l.2) = (2, d);
                continue;
            }
            if l.1 > 1 && d == l.1 * l.2 && (keys_only || v == l.3 + l.1) {
                l.1 += 1;
                continue;
            }
        }
        out.push((k, 1, 1, v));
    }
    out
}
pub fn expand(sg: &[(i64, i64, i64, i64)]) -> Vec<(i64, i64)> {
    sg.iter().flat_map(|(k0, n, st, v0)| (0..*n).map(move |j| (k0 + j * st, v0 + j))).collect()
}

impl<K: Key> Session<'_, K> {
    fn m(&self, h: i64) -> &'static dyn MapObj<K> {
        // SAFETY: boxed and alive while the plan uses it
        unsafe { std::mem::transmute::<&dyn MapObj<K>, &'static dyn MapObj<K>>(&*self.maps[&h]) }
    }
    fn st(&self, h: i64) -> &'static dyn SetObj<K> {
        // SAFETY: as above
        unsafe { std::mem::transmute::<&dyn SetObj<K>, &'static dyn SetObj<K>>(&*self.sets[&h]) }
    }
    fn is_map(&self, h: i64) -> bool { self.maps.contains_key(&h) }
    fn construct(&mut self, h: i64, kind: &str, ty: &str, route: &str, en: &[(i64, i64)]) -> Option<bool> {
        let src = Src { en };
        let fam = self.fam;
        if kind == "map" {
            match catch_unwind(AssertUnwindSafe(|| fam.map(ty, route, &src))) {
                Ok(Built::Ok(m)) => { self.maps.insert(h, m); Some(true) }
                Ok(Built::Refused) => Some(false),
                Err(p) => { check_harness(&*p); self.why = text(&*p); None }
            }
        } else {
            match catch_unwind(AssertUnwindSafe(|| fam.set(ty, route, &src))) {
                Ok(Built::Ok(m)) => { self.sets.insert(h, m); Some(true) }
                Ok(Built::Refused) => Some(false),
                Err(p) => { check_harness(&*p); self.why = text(&*p); None }
            }
        }
    }
    fn dbg_items(&self, log: Vec<(bool, i64)>, w: &str) -> Option<(String, Vec<Item>)> {
        if w == "kv" && K::LOGS {
            let mut out = Vec::new();
            let mut it = log.into_iter();
            while let Some((_, k)) = it.next() {
                out.push(vec![k, it.next().map_or(-7, |x| x.1)]);
            }
            Some(("kv".into(), out))
        } else if w == "k" {
            K::LOGS.then(|| ("k".into(), log.into_iter().filter(|x| x.0).map(|x| vec![x.1]).collect()))
        } else {
            Some(("v".into(), log.into_iter().filter(|x| !x.0).map(|x| vec![x.1]).collect()))
        }
    }
    fn all(&self, h: i64, w: &str, how: &str) -> Vec<Value> {
        let map = self.is_map(h);
        match how {
            "dbg" => {
                let (log, w) = if map { (self.m(h).dbg(), "kv") } else { (self.st(h).dbg(), "k") };
                match self.dbg_items(log, w) {
                    Some((w, r)) => vec![json!({"e":"all","h":h,"w":w,"r":r,"how":how})],
                    None => vec![],
                }
            }
            "json" => {
                let (j, p) = if map { (self.m(h).ser("json"), self.m(h).probe()) } else { (self.st(h).ser("json"), self.st(h).probe()) };
                let Some(j) = j else { return vec![] };
                let mut out = Vec::new();
                let doc: Result<Doc, _> = j.and_then(|t| match t {
                    Enc::Json(t) => serde_json::from_str(&t).map_err(|e| e.to_string()),
                    _ => unreachable!(),
                });
                match doc {
                    Ok(Doc::Map(v)) if map => {
                        let r: Vec<Item> = v.iter().map(|(k, v)| vec![K::from_json(k).map_or(-1, |k| k.id()), *v]).collect();
                        out.push(json!({"e":"all","h":h,"w":"kv","r":r,"how":how}));
                    }
                    Ok(Doc::Seq(v)) if !map => {
                        let r: Vec<Item> = v.iter().map(|k| vec![K::from_json(k).map_or(-1, |k| k.id())]).collect();
                        out.push(json!({"e":"all","h":h,"w":"k","r":r,"how":how}));
                    }
                    x => out.push(json!({"e":"badshape","h":h,"what":format!("{x:?}")})),
                }
                // what is announced to the serializer: formats that write the length first need it
                if let Some(n) = p {
                    out.push(json!({"e":"len","h":h,"r":n.map_or(-1, sz),"em":n==Some(0),"via":"declared"}));
                }
                out
            }
            _ => {
                let (via, cons) = how.split_once('/').unwrap_or((how, "for"));
                let via = Via::parse(via);
                let it = if map { self.m(h).open(via, w) } else { self.st(h).open(via) };
                let r = it.rest(cons);
                vec![json!({"e":"all","h":h,"w":w,"r":r,"how":how})]
            }
        }
    }
    fn op(&mut self, o: &[Value]) -> Vec<Value> {
        match s(&o[0]) {
            "build" | "blim" => {
                let (h, kind, ty, route) = (i(&o[1]), s(&o[2]), s(&o[3]), s(&o[4]));
                let en: Vec<(i64, i64)> = o[5].as_array().unwrap().iter().map(|e| (i(&e[0]), i(&e[1]))).collect();
                let r = self.construct(h, kind, ty, route, &en);
                if s(&o[0]) == "build" {
                    vec![json!({"e":"build","h":h,"kind":kind,"en":en,"p":r!=Some(true),"ty":ty,"route":route,"msg":std::mem::take(&mut self.why)})]
                } else {
                    match r {
                        None => vec![json!({"e":"panic","op":o})],
                        Some(ok) => vec![json!({"e":"blim","h":h,"kind":kind,"en":en,"cap":o[6],"dense":o[7],"ok":ok,"ty":ty})],
                    }
                }
            }
            "bslim" => {
                let (h, kind, ty, route) = (i(&o[1]), s(&o[2]), s(&o[3]), s(&o[4]));
                let sg: Vec<(i64, i64, i64, i64)> = serde_json::from_value(o[5].clone()).unwrap();
                let en = expand(&sg);
                match self.construct(h, kind, ty, route, &en) {
                    None => vec![json!({"e":"panic","op":o})],
                    Some(ok) => vec![json!({"e":"bslim","h":h,"kind":kind,"sg":sg,"n":en.len(),"cap":o[6],"ok":ok,"ty":ty})],
                }
            }
            "bseg" => {
                let (h, kind, ty, route) = (i(&o[1]), s(&o[2]), s(&o[3]), s(&o[4]));
                let sg: Vec<(i64, i64, i64, i64)> = serde_json::from_value(o[5].clone()).unwrap();
                let en = expand(&sg);
                let r = self.construct(h, kind, ty, route, &en);
                vec![json!({"e":"bseg","h":h,"kind":kind,"sg":sg,"n":en.len(),"p":r!=Some(true),"ty":ty,"route":route})]
            }
            "clone" => {
                let (h, g) = (i(&o[1]), i(&o[2]));
                if self.is_map(h) {
                    let c = self.m(h).cl();
                    self.maps.insert(g, c);
                } else {
                    let c = self.st(h).cl();
                    self.sets.insert(g, c);
                }
                vec![json!({"e":"clone","h":h,"g":g})]
            }
            "rt" => {
                // serialize h, deserialize as ty into g
                let (h, g, ty) = (i(&o[1]), i(&o[2]), s(&o[3]));
                let fmt = o.get(4).map_or("json", s);
                let j = if self.is_map(h) { self.m(h).ser(fmt) } else { self.st(h).ser(fmt) };
                let Some(j) = j else { return vec![] };
                let t = j.unwrap();
                if self.is_map(h) {
                    match self.fam.map_from(ty, &t) {
                        Ok(m) => { self.maps.insert(g, m); }
                        Err(e) => return vec![json!({"e":"bad","what":e,"op":o})],
                    }
                } else {
                    match self.fam.set_from(ty, &t) {
                        Ok(m) => { self.sets.insert(g, m); }
                        Err(e) => return vec![json!({"e":"bad","what":e,"op":o})],
                    }
                }
                vec![json!({"e":"rt","h":h,"g":g,"ty":ty,"fmt":fmt})]
            }
            "cut" => {
                // serialize h, damage the document, and try to read it as ty
                let (h, ty, fmt, n) = (i(&o[1]), s(&o[2]), s(&o[3]), i(&o[4]));
                let j = if self.is_map(h) { self.m(h).ser(fmt) } else { self.st(h).ser(fmt) };
                let Some(j) = j else { return vec![] };
                let d = j.unwrap().damaged(n);
                let ok = if self.is_map(h) { self.fam.map_from(ty, &d).is_ok() } else { self.fam.set_from(ty, &d).is_ok() };
                vec![json!({"e":"accept","ok":ok,"want":false,"ty":ty,"text":format!("{fmt} damaged {n}")})]
            }
            "drop" => {
                let h = i(&o[1]);
                self.maps.remove(&h);
                self.sets.remove(&h);
                vec![json!({"e":"drop","h":h})]
            }
            "get" => {
                // on a set: the stored element (0 as its value)
                let (h, via, q) = (i(&o[1]), Via::parse(s(&o[2])), ints(&o[3]));
                let r: Vec<i64> = q.iter().map(|k| {
                    let k = K::nth(*k);
                    if self.is_map(h) { self.m(h).get(via, &k).map_or(-1, Tv::get) }
                    else { self.st(h).get(via, &k).map_or(-1, |x| if x.id() == k.id() { 0 } else { -2 }) }
                }).collect();
                vec![json!({"e":"get","h":h,"q":q,"r":r,"via":o[2]})]
            }
            "getmut" => {
                // mutable access used as a query
                let (h, via, q) = (i(&o[1]), Via::parse(s(&o[2])), ints(&o[3]));
                let m = self.maps.get_mut(&h).unwrap();
                let r: Vec<i64> = q.iter().map(|k| m.get_mut(via, &K::nth(*k)).map_or(-1, |v| v.get())).collect();
                vec![json!({"e":"get","h":h,"q":q,"r":r,"via":format!("mut {}", s(&o[2]))})]
            }
            "has" => {
                let (h, via, q) = (i(&o[1]), Via::parse(s(&o[2])), ints(&o[3]));
                let r: Vec<bool> = q.iter().map(|k| {
                    let k = K::nth(*k);
                    if self.is_map(h) { self.m(h).has(via, &k) } else { self.st(h).has(via, &k) }
                }).collect();
                vec![json!({"e":"has","h":h,"q":q,"r":r,"via":o[2]})]
            }
            "gkv" => {
                let (h, via, q) = (i(&o[1]), Via::parse(s(&o[2])), ints(&o[3]));
                let r: Vec<Item> = q.iter().map(|k| self.m(h).gkv(via, &K::nth(*k)).map_or(vec![], |(k, v)| vec![k.id(), v.get()])).collect();
                vec![json!({"e":"gkv","h":h,"q":q,"r":r,"via":o[2]})]
            }
            "idx" => {
                let (h, via, k) = (i(&o[1]), Via::parse(s(&o[2])), i(&o[3]));
                let m = self.m(h);
                let r = catch_unwind(AssertUnwindSafe(|| m.idx(via, &K::nth(k)).get())).unwrap_or(-1);
                vec![json!({"e":"idx","h":h,"k":k,"r":r,"via":o[2]})]
            }
            "len" => {
                let (h, via) = (i(&o[1]), Via::parse(s(&o[2])));
                let (n, e) = if self.is_map(h) { self.m(h).len(via) } else { self.st(h).len(via) };
                vec![json!({"e":"len","h":h,"r":sz(n),"em":e,"via":o[2]})]
            }
            "all" => self.all(i(&o[1]), s(&o[2]), s(&o[3])),
            "scan" => {
                // asks for every key of the universe, or enumerates everything
                let (h, how, n) = (i(&o[1]), s(&o[2]), i(&o[3]));
                let (via, what) = how.split_once('/').unwrap();
                let via = Via::parse(via);
                let map = self.is_map(h);
                let mut w = if map { "kv" } else { "k" };
                let items: Vec<(i64, i64)> = match what {
                    "get" if map => (0..n).filter_map(|k| self.m(h).get(via, &K::nth(k)).map(|v| (k, v.get()))).collect(),
                    "getmut" => {
                        let m = self.maps.get_mut(&h).unwrap();
                        (0..n).filter_map(|k| m.get_mut(via, &K::nth(k)).map(|v| (k, v.get()))).collect()
                    }
                    "gkv" => (0..n).filter_map(|k| self.m(h).gkv(via, &K::nth(k)).map(|(x, v)| (x.id(), v.get()))).collect(),
                    "get" => (0..n).filter_map(|k| self.st(h).get(via, &K::nth(k)).map(|x| (x.id(), 0))).collect(),
                    "has" => {
                        w = "k";
                        (0..n).filter(|k| if map { self.m(h).has(via, &K::nth(*k)) } else { self.st(h).has(via, &K::nth(*k)) }).map(|k| (k, 0)).collect()
                    }
                    _ if what.starts_with("enum") => {
                        let it = if map { self.m(h).open(via, "kv") } else { self.st(h).open(via) };
                        let mut v: Vec<(i64, i64)> = it.rest(what.split_once(':').map_or("for", |x| x.1)).into_iter().map(|x| (x[0], x.get(1).copied().unwrap_or(0))).collect();
                        v.sort_unstable();
                        v
                    }
                    _ => panic!("harness: scan {what}"),
                };
                vec![json!({"e":"scan","h":h,"w":w,"sg":compress(&items, w == "k"),"n":items.len(),"how":how})]
            }
            "set" => {
                let (h, via, k, v) = (i(&o[1]), Via::parse(s(&o[2])), i(&o[3]), i(&o[4]));
                let m = self.maps.get_mut(&h).unwrap();
                let r = match m.get_mut(via, &K::nth(k)) {
                    None => -1,
                    Some(x) => {
                        let r = x.get();
                        *x = Tv::new(v);
                        r
                    }
                };
                vec![json!({"e":"set","h":h,"k":k,"v":v,"r":r,"via":o[2]})]
            }
            "dis" => {
                let (h, via, q, w) = (i(&o[1]), Via::parse(s(&o[2])), ints(&o[3]), ints(&o[4]));
                let m = self.maps.get_mut(&h).unwrap();
                let ks: Vec<K> = q.iter().map(|k| K::nth(*k)).collect();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let kr: Vec<&K> = ks.iter().collect();
                    let mut a = m.dis(via, &kr);
                    // all accesses are alive together: read all, then write all, then read again
                    let r: Vec<i64> = a.iter().map(|x| x.as_ref().map_or(-1, |v| v.get())).collect();
                    for (x, n) in a.iter_mut().zip(&w) {
                        if let (Some(x), Some(n)) = (x, opt(*n)) {
                            **x = Tv::new(n);
                        }
                    }
                    for ((x, n), r) in a.iter().zip(&w).zip(&r) {
                        let now = x.as_ref().map_or(-1, |v| v.get());
                        let want = if *r >= 0 && *n >= 0 { *n } else { *r };
                        if now != want {
                            return vec![-3; q.len()];
                        }
                    }
                    r
                }));
                match r {
                    Ok(r) => vec![json!({"e":"dis","h":h,"q":q,"w":w,"r":r,"p":false,"via":o[2]})],
                    Err(p) => {
                        check_harness(&*p);
                        vec![json!({"e":"dis","h":h,"q":q,"w":w,"r":[],"p":true,"via":o[2]})]
                    }
                }
            }
            "eq" => {
                let (h, g, same) = (i(&o[1]), i(&o[2]), s(&o[3]) == "same");
                let r = if self.is_map(h) { self.m(h).eq(self.m(g), same) } else { self.st(h).eq(self.st(g), same) };
                r.map_or(vec![], |r| vec![json!({"e":"eq","h":h,"g":g,"r":r,"how":o[3]})])
            }
            "rel" => {
                let (op, h, g) = (s(&o[1]), i(&o[2]), i(&o[3]));
                let r = self.st(h).rel(op, self.st(g), s(&o[4]) == "same");
                vec![json!({"e":"rel","op":op,"h":h,"g":g,"r":r,"how":o[4]})]
            }
            "sop" => {
                let (op, h, g, how) = (s(&o[1]), i(&o[2]), i(&o[3]), s(&o[4]));
                let r = match how {
                    "operator" => match self.st(h).operator(op, self.st(g)) {
                        Some(r) => r,
                        None => return vec![],
                    },
                    _ => self.st(h).openop(op, self.st(g), how == "same").rest("collect"),
                };
                vec![json!({"e":"sop","op":op,"h":h,"g":g,"r":r,"how":how})]
            }
            "sopscan" => {
                // a large result of a set operator, as segments
                let (op, h, g, how) = (s(&o[1]), i(&o[2]), i(&o[3]), s(&o[4]));
                let r = match how {
                    "operator" => match self.st(h).operator(op, self.st(g)) {
                        Some(r) => r,
                        None => return vec![],
                    },
                    _ => {
                        let (how, cons) = how.split_once('/').unwrap_or((how, "collect"));
                        self.st(h).openop(op, self.st(g), how == "same").rest(cons)
                    }
                };
                let mut items: Vec<(i64, i64)> = r.iter().map(|x| (x[0], 0)).collect();
                items.sort_unstable();
                vec![json!({"e":"sopscan","op":op,"h":h,"g":g,"sg":compress(&items, true),"n":items.len(),"how":how})]
            }
            "bump" => {
                // a mutable walk over everything that adds d to every value
                let (h, w, via, d) = (i(&o[1]), s(&o[2]), Via::parse(s(&o[3])), i(&o[4]));
                let mut it = self.maps.get_mut(&h).unwrap().open_mut(via, w);
                let mut n = 0;
                while it.next(Some(-1 - d)).is_some() {
                    n += 1;
                }
                vec![json!({"e":"bump","h":h,"d":d,"n":n,"w":w,"via":o[3]})]
            }
            "open" => {
                let (id, h, w, src, via) = (i(&o[1]), i(&o[2]), s(&o[3]), s(&o[4]), Via::parse(s(&o[5])));
                let it = match (src, self.is_map(h)) {
                    ("ref", true) => self.m(h).open(via, w),
                    ("ref", false) => self.st(h).open(via),
                    ("mut", _) => self.maps.get_mut(&h).unwrap().open_mut(via, w),
                    (_, true) => self.maps.remove(&h).unwrap().open_own(via, w),
                    (_, false) => self.sets.remove(&h).unwrap().open_own(via),
                };
                self.iters.insert(id, (Some(it), w.to_string()));
                vec![json!({"e":"open","i":id,"h":h,"w":w,"src":src,"via":o[5]})]
            }
            "openop" => {
                let (id, op, h, g, how) = (i(&o[1]), s(&o[2]), i(&o[3]), i(&o[4]), s(&o[5]));
                let it = self.st(h).openop(op, self.st(g), how == "same");
                self.iters.insert(id, (Some(it), "k".into()));
                vec![json!({"e":"openop","i":id,"op":op,"h":h,"g":g,"how":how})]
            }
            "next" => {
                let (id, nv) = (i(&o[1]), i(&o[2]));
                let Some(e) = self.iters.get_mut(&id) else { return vec![] };
                let it = e.0.as_mut().unwrap();
                let r = it.next(opt(nv)).unwrap_or_default();
                vec![json!({"e":"next","i":id,"r":r,"nv":nv})]
            }
            "nth" => {
                let (id, n) = (i(&o[1]), i(&o[2]));
                let Some(e) = self.iters.get_mut(&id) else { return vec![] };
                let r = e.0.as_mut().unwrap().nth(n as usize).unwrap_or_default();
                vec![json!({"e":"nth","i":id,"n":n,"r":r})]
            }
            "size" => {
                let id = i(&o[1]);
                let Some(e) = self.iters.get(&id) else { return vec![] };
                let it = e.0.as_ref().unwrap();
                let (lo, hi) = it.size();
                let mut v = vec![json!({"e":"size","i":id,"lo":sz(lo),"hi":hi.map_or(-1, sz)})];
                if let Some(n) = it.len() {
                    v.push(json!({"e":"size","i":id,"lo":sz(n),"hi":sz(n),"via":"len"}));
                }
                v
            }
            "idbg" => {
                let id = i(&o[1]);
                let Some((it, w)) = self.iters.get(&id) else { return vec![] };
                match it.as_ref().unwrap().dbg().and_then(|l| self.dbg_items(l, w)) {
                    Some((w, r)) => vec![json!({"e":"peek","i":id,"w":w,"r":r})],
                    None => vec![],
                }
            }
            "icl" => {
                let (id, j) = (i(&o[1]), i(&o[2]));
                let Some((it, w)) = self.iters.get(&id) else { return vec![] };
                match it.as_ref().unwrap().cl() {
                    None => vec![],
                    Some(c) => {
                        let w = w.clone();
                        self.iters.insert(j, (Some(c), w));
                        vec![json!({"e":"icl","i":id,"j":j})]
                    }
                }
            }
            "rest" => {
                let id = i(&o[1]);
                let Some(e) = self.iters.get_mut(&id) else { return vec![] };
                let r = e.0.take().unwrap().rest(s(&o[2]));
                self.iters.remove(&id);
                vec![json!({"e":"rest","i":id,"r":r,"how":o[2]}), json!({"e":"close","i":id})]
            }
            "last" => {
                let id = i(&o[1]);
                let Some(e) = self.iters.get_mut(&id) else { return vec![] };
                let r = e.0.take().unwrap().last().unwrap_or_default();
                self.iters.remove(&id);
                vec![json!({"e":"last","i":id,"r":r}), json!({"e":"close","i":id})]
            }
            "cnt" => {
                let id = i(&o[1]);
                let Some(e) = self.iters.get_mut(&id) else { return vec![] };
                let r = e.0.take().unwrap().count();
                self.iters.remove(&id);
                vec![json!({"e":"cnt","i":id,"r":sz(r)}), json!({"e":"close","i":id})]
            }
            "close" => {
                let id = i(&o[1]);
                match self.iters.remove(&id) {
                    None => vec![],
                    Some(_) => vec![json!({"e":"close","i":id})],
                }
            }
            "live" => {
                let mut v = Vec::new();
                if s(&o[1]).contains('v') { v.push(json!({"e":"live","r":track::live_values(),"of":"values"})); }
                if s(&o[1]).contains('k') { v.push(json!({"e":"live","r":track::live_keys(),"of":"keys"})); }
                v
            }
            "sidx" => {
                let q = ints(&o[1]);
                let r: Vec<[u16; 4]> = q.iter().map(|k| {
                    let x = self.fam.index(&K::nth(*k)).unwrap() as u64;
                    [(x >> 48) as u16, (x >> 32) as u16, (x >> 16) as u16, x as u16]
                }).collect();
                vec![json!({"e":"sidx","q":q,"r":r,"succ":o[2],"zero":o[3]})]
            }
            "parse" => {
                let (ty, text) = (s(&o[1]), s(&o[2]));
                let ok = self.fam.parse(ty, text);
                vec![json!({"e":"accept","ok":ok,"want":o[3],"ty":ty,"text":text})]
            }
            x => self.fam.special(x, &o[1]),
        }
    }
}
fn text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().map(String::as_str).or(p.downcast_ref::<&str>().copied()).unwrap_or("").to_string()
}
pub fn check_harness(p: &(dyn std::any::Any + Send)) {
    let m = text(p);
    if m.starts_with("harness:") {
        eprintln!("HARNESS ERROR {m}");
        std::process::exit(3);
    }
}

pub fn bh_of(v: &Value) -> BhKind {
    if let Some(a) = v.as_array() {
        return BhKind::Table(a.iter().map(|x| x.as_str().map_or_else(|| x.as_u64().unwrap(), |s| s.parse().unwrap())).collect());
    }
    let t = v.as_str().unwrap_or("good");
    let n = |p: &str| t[p.len()..].parse().unwrap();
    match t {
        "good" => BhKind::Good,
        "ident" => BhKind::Ident,
        _ if t.starts_with("const") => BhKind::Const(n("const")),
        _ if t.starts_with("low") => BhKind::Low(n("low") as u32),
        _ if t.starts_with("high") => BhKind::High(n("high") as u32),
        _ if t.starts_with("shift") => BhKind::Shift(n("shift") as u32),
        _ => panic!("harness: hasher {t}"),
    }
}
pub fn universe(v: &Value) -> Vec<String> {
    if let Some(a) = v.as_array() {
        return a.iter().map(|x| x.as_str().map_or_else(|| x.to_string(), str::to_string)).collect();
    }
    let n = i(&v["n"]);
    match s(&v["f"]) {
        "lin" => (0..n).map(|j| (i(&v["a"]) * j + i(&v["b"])).to_string()).collect(),
        "str" => {
            let w = v["w"].as_i64().unwrap_or(0) as usize;
            (0..n).map(|j| format!("{}{:0w$}{}", s(&v["pre"]), j, s(&v["suf"]), w = w)).collect()
        }
        f => panic!("harness: universe {f}"),
    }
}

pub fn session<K: Key>(fam: &dyn Fam<K>, plan: &Value, out: &mut dyn Write) {
    K::set_universe(&universe(&plan["uni"]));
    track::set_bh(bh_of(&plan["bh"]));
    track::reset();
    let mut st = Session { fam, maps: BTreeMap::new(), sets: BTreeMap::new(), iters: BTreeMap::new(), why: String::new() };
    let mut refused = std::collections::BTreeSet::new();
    for o in plan["ops"].as_array().unwrap() {
        let o = o.as_array().unwrap();
        // calls on a handle whose construction was refused are left out
        let on = match o[0].as_str().unwrap() {
            "get" | "getmut" | "has" | "gkv" | "idx" | "len" | "all" | "set" | "scan" | "bump" | "dis" | "eq" | "clone" | "drop" | "rt" | "cut" => &o[1],
            "rel" | "sop" | "sopscan" | "open" => &o[2],
            _ => &Value::Null,
        };
        if on.as_i64().is_some_and(|h| refused.contains(&h)) {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| st.op(o)));
        match r {
            Ok(evs) => {
                for e in evs {
                    writeln!(out, "{e}").unwrap();
                }
            }
            Err(p) => {
                check_harness(&*p);
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
                writeln!(out, "{}", json!({"e":"panic","op":o,"msg":m})).unwrap();
                std::mem::forget(st);
                return;
            }
        }
        if let Some(b) = track::bad() {
            writeln!(out, "{}", json!({"e":"bad","what":b,"op":o})).unwrap();
            std::mem::forget(st);
            return;
        }
        if o[0] == "blim" || o[0] == "bslim" {
            let h = i(&o[1]);
            if st.maps.contains_key(&h) || st.sets.contains_key(&h) { refused.remove(&h); } else { refused.insert(h); }
        }
        if matches!(o[0].as_str(), Some("build" | "bseg")) && !st.maps.contains_key(&i(&o[1])) && !st.sets.contains_key(&i(&o[1])) {
            return; // construction panicked; the event already says so
        }
    }
    drop(std::mem::take(&mut st.iters));
}

/// Reads plans from stdin, writes events to stdout.
pub fn main(dispatch: impl Fn(&Value, &mut dyn Write)) {
    std::panic::set_hook(Box::new(|_| {}));
    static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    std::thread::spawn(|| {
        use std::sync::atomic::Ordering::Relaxed;
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Relaxed);
            same = if t == last { same + 1 } else { 0 };
            last = t;
            if same > 90 {
                // one session has been running for a minute and a half: it hangs
                eprintln!("HANG");
                std::process::exit(4);
            }
        }
    });
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let plan: Value = serde_json::from_str(&line).unwrap();
        writeln!(out, "{}", json!({"e":"reset","s":plan["s"]})).unwrap();
        out.flush().unwrap();
        TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        dispatch(&plan, &mut out);
        out.flush().unwrap();
    }
}
