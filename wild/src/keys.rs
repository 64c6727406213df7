//! Keys, queries and a hash function that answer whatever the session's script says: lawful, constant,
//! arbitrary from call to call, or with a panic.  No unsafe code here.
use equivalent::{Comparable, Equivalent};
use frozen_collections_core::traits::Scalar;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Copy, Default)]
pub struct Script {
    pub eq: u8,
    pub ord: u8,
    pub hash: u8,
    pub idx: u8,
    pub rng: u64,
    /// callbacks until one of them panics (0: never)
    pub fuse: u64,
    /// things destroyed until one of them panics
    pub dfuse: u64,
    pub building: bool,
    pub serial: i64,
}
thread_local! {
    static S: Cell<Script> = Cell::default();
    static ALIVE: RefCell<[Vec<bool>; 2]> = RefCell::default();
    static LIVE: Cell<[i64; 2]> = const { Cell::new([0, 0]) };
    static BAD: Cell<bool> = const { Cell::new(false) };
}
pub struct Planned;
pub fn reset(seed: u64) {
    S.set(Script { rng: seed.wrapping_mul(2) + 1, ..Script::default() });
    ALIVE.with(|a| *a.borrow_mut() = Default::default());
    LIVE.set([0, 0]);
    BAD.set(false);
}
pub fn mode(eq: u8, ord: u8, hash: u8, idx: u8) {
    S.set(Script { eq, ord, hash, idx, ..S.get() });
}
pub fn fuse(n: u64) {
    S.set(Script { fuse: n, ..S.get() });
}
pub fn dfuse(n: u64) {
    S.set(Script { dfuse: n, ..S.get() });
}
pub fn building(b: bool) {
    S.set(Script { building: b, ..S.get() });
}
pub fn live() -> [i64; 2] {
    LIVE.get()
}
pub fn bad() -> bool {
    BAD.get()
}
pub fn overlap() {
    BAD.set(true);
}
fn rnd() -> u64 {
    let mut s = S.get();
    let mut x = s.rng;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    s.rng = x;
    S.set(s);
    x >> 11
}
pub fn serial() -> i64 {
    let mut s = S.get();
    s.serial += 1;
    S.set(s);
    s.serial
}
/// every call the library makes into key code passes here
fn callback() {
    let mut s = S.get();
    if s.fuse > 0 {
        s.fuse -= 1;
        S.set(s);
        if s.fuse == 0 {
            std::panic::panic_any(Planned);
        }
    }
}
fn eq(lawful: bool) -> bool {
    callback();
    match S.get().eq {
        0 => lawful,
        1 => true,
        2 => false,
        3 => rnd() % 2 == 0,
        _ => if rnd() % 4 == 0 { !lawful } else { lawful },
    }
}
fn ord(lawful: Ordering) -> Ordering {
    callback();
    match S.get().ord {
        0 => lawful,
        1 => lawful.reverse(),
        2 => Ordering::Equal,
        3 => Ordering::Less,
        4 => Ordering::Greater,
        5 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(rnd() % 3) as usize],
        _ => if rnd() % 4 == 0 { lawful.reverse() } else { lawful },
    }
}
fn index(class: usize) -> usize {
    callback();
    match S.get().idx {
        0 => class,
        1 => (rnd() % 8) as usize,
        2 => (rnd() % 3000) as usize,
        3 => 1000usize.saturating_sub(class),
        4 => 5,
        5 => class.wrapping_mul(17) % 23,
        6 => if rnd() % 4 == 0 { class.wrapping_add((rnd() % 40) as usize) } else { class },
        7 => class.wrapping_add((S.get().serial % 2) as usize),
        // anything at all, but not while tables are made as large as this says
        _ => if S.get().building { class } else { [0, 1, usize::MAX, usize::MAX / 2, 1 << 32, class.wrapping_sub(1), 255, 65536][(rnd() % 8) as usize] },
    }
}

/* ------------------------- what must be dropped once --------------------- */
struct Tok {
    what: usize,
    at: usize,
    own: Box<usize>,
}
impl Tok {
    fn new(what: usize) -> Self {
        let at = ALIVE.with(|a| {
            let v = &mut a.borrow_mut()[what];
            v.push(true);
            v.len() - 1
        });
        let mut l = LIVE.get();
        l[what] += 1;
        LIVE.set(l);
        Tok { what, at, own: Box::new(at) }
    }
    fn check(&self) {
        let ok = *self.own == self.at && ALIVE.with(|a| a.borrow()[self.what].get(self.at).copied().unwrap_or(false));
        if !ok {
            BAD.set(true);
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.check();
        ALIVE.with(|a| {
            if let Some(x) = a.borrow_mut()[self.what].get_mut(self.at) {
                *x = false;
            }
        });
        let mut l = LIVE.get();
        l[self.what] -= 1;
        LIVE.set(l);
        *self.own = usize::MAX;
        let mut s = S.get();
        if s.dfuse > 0 && !std::thread::panicking() {
            s.dfuse -= 1;
            S.set(s);
            if s.dfuse == 0 {
                std::panic::panic_any(Planned);
            }
        }
    }
}

pub struct Tv {
    id: i64,
    tok: Tok,
}
impl Tv {
    pub fn new(id: i64) -> Self {
        Tv { id, tok: Tok::new(0) }
    }
    pub fn id(&self) -> i64 {
        self.tok.check();
        self.id
    }
}
impl Clone for Tv {
    fn clone(&self) -> Self {
        callback();
        Tv::new(self.id())
    }
}
impl PartialEq for Tv {
    fn eq(&self, o: &Self) -> bool {
        eq(self.id() == o.id())
    }
}
impl Eq for Tv {}

pub trait Wild: Sized {
    fn id(&self) -> i64;
}
pub trait Make: Wild {
    fn make(class: u32) -> Self;
}

/* --------------------- keys for hashing and for ordering ------------------ */
pub struct Wk {
    class: u32,
    serial: i64,
    tok: Tok,
}
impl Make for Wk {
    fn make(class: u32) -> Self {
        Wk { class, serial: serial(), tok: Tok::new(1) }
    }
}
impl Wild for Wk {
    fn id(&self) -> i64 {
        self.tok.check();
        self.serial
    }
}
impl Clone for Wk {
    fn clone(&self) -> Self {
        callback();
        Wk { class: self.class, serial: self.id(), tok: Tok::new(1) }
    }
}
impl PartialEq for Wk {
    fn eq(&self, o: &Self) -> bool {
        self.tok.check();
        o.tok.check();
        eq(self.class == o.class)
    }
}
impl Eq for Wk {}
impl PartialOrd for Wk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Wk {
    fn cmp(&self, o: &Self) -> Ordering {
        self.tok.check();
        o.tok.check();
        ord(self.class.cmp(&o.class))
    }
}
impl Hash for Wk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tok.check();
        callback();
        h.write_u32(self.class);
    }
}

/* -------------------------------- scalars -------------------------------- */
#[derive(Clone, Copy)]
pub struct Ws {
    class: u32,
    serial: i64,
}
impl Make for Ws {
    fn make(class: u32) -> Self {
        Ws { class, serial: serial() }
    }
}
impl Wild for Ws {
    fn id(&self) -> i64 {
        self.serial
    }
}
impl PartialEq for Ws {
    fn eq(&self, o: &Self) -> bool {
        eq(self.class == o.class)
    }
}
impl Eq for Ws {}
impl PartialOrd for Ws {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ws {
    fn cmp(&self, o: &Self) -> Ordering {
        ord(self.class.cmp(&o.class))
    }
}
impl Hash for Ws {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback();
        h.write_u32(self.class);
    }
}
impl Scalar for Ws {
    fn index(&self) -> usize {
        index(self.class as usize)
    }
}

/* ---- queries whose own equality is finer than what they are equivalent to ---- */
#[derive(Clone, Copy)]
pub struct Fine {
    pub class: u32,
    pub tag: u32,
}
impl PartialEq for Fine {
    fn eq(&self, o: &Self) -> bool {
        callback();
        (self.class, self.tag) == (o.class, o.tag)
    }
}
impl Eq for Fine {}
impl PartialOrd for Fine {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fine {
    fn cmp(&self, o: &Self) -> Ordering {
        ord((self.class, self.tag).cmp(&(o.class, o.tag)))
    }
}
impl Hash for Fine {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback();
        h.write_u32(self.class);
    }
}
impl Scalar for Fine {
    fn index(&self) -> usize {
        index(self.class as usize)
    }
}
impl Equivalent<Wk> for Fine {
    fn equivalent(&self, k: &Wk) -> bool {
        k.tok.check();
        eq(self.class == k.class)
    }
}
impl Comparable<Wk> for Fine {
    fn compare(&self, k: &Wk) -> Ordering {
        k.tok.check();
        ord(self.class.cmp(&k.class))
    }
}
impl Equivalent<Ws> for Fine {
    fn equivalent(&self, k: &Ws) -> bool {
        eq(self.class == k.class)
    }
}
impl Comparable<Ws> for Fine {
    fn compare(&self, k: &Ws) -> Ordering {
        ord(self.class.cmp(&k.class))
    }
}

/* ---------------- queries of the collections that macros declare ---------- */
#[derive(Clone, Copy)]
pub struct Fi {
    pub val: u64,
    pub tag: u32,
}
impl PartialEq for Fi {
    fn eq(&self, o: &Self) -> bool {
        callback();
        (self.val, self.tag) == (o.val, o.tag)
    }
}
impl Eq for Fi {}
impl PartialOrd for Fi {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fi {
    fn cmp(&self, o: &Self) -> Ordering {
        ord((self.val, self.tag).cmp(&(o.val, o.tag)))
    }
}
impl Scalar for Fi {
    fn index(&self) -> usize {
        index(self.val as usize)
    }
}
impl Equivalent<u64> for Fi {
    fn equivalent(&self, k: &u64) -> bool {
        eq(self.val == *k)
    }
}
impl Comparable<u64> for Fi {
    fn compare(&self, k: &u64) -> Ordering {
        ord(self.val.cmp(k))
    }
}
impl Wild for u64 {
    fn id(&self) -> i64 {
        *self as i64
    }
}

/* --------------------------------- strings -------------------------------- */
/// a text that need not be the same each time it is asked for
pub struct Wa {
    pub texts: [String; 2],
    pub tag: u32,
}
impl AsRef<str> for Wa {
    fn as_ref(&self) -> &str {
        callback();
        match S.get().hash {
            0 => &self.texts[0],
            1 => "",
            2 => &self.texts[(rnd() % 2) as usize],
            3 => if rnd() % 3 == 0 { "" } else { &self.texts[0] },
            _ => if rnd() % 4 == 0 { &self.texts[1] } else { &self.texts[0] },
        }
    }
}
impl PartialEq for Wa {
    fn eq(&self, o: &Self) -> bool {
        eq(self.texts[0] == o.texts[0] && self.tag == o.tag)
    }
}
impl Eq for Wa {}
impl Equivalent<&'static str> for Wa {
    fn equivalent(&self, k: &&'static str) -> bool {
        eq(self.texts[0] == *k)
    }
}
impl Wild for &'static str {
    fn id(&self) -> i64 {
        self.trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(-1)
    }
}
impl Wild for Box<str> {
    fn id(&self) -> i64 {
        self.trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(-1)
    }
}
/// the text of a class; several shapes, so that every way of hashing strings is met
pub fn text(shape: u8, class: u32) -> String {
    match shape {
        0 => format!("{class}"),
        1 => format!("{class:03}-common-tail"),
        2 => format!("common-head-{class:03}"),
        3 => format!("{}{class}", "x".repeat(class as usize % 40)),
        _ => format!("ä{class:02}ö{}", "-".repeat(class as usize % 3)),
    }
}

/* ---------------------------------- hashing -------------------------------- */
#[derive(Clone, Default)]
pub struct WildBh;
pub struct WildHasher(u64);
impl BuildHasher for WildBh {
    type Hasher = WildHasher;
    fn build_hasher(&self) -> WildHasher {
        callback();
        WildHasher(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for WildHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        callback();
        match S.get().hash {
            0 => self.0,
            1 => 0,
            2 => rnd().wrapping_mul(0x9e37_79b9_7f4a_7c15),
            3 => rnd() % 4,
            4 => u64::MAX,
            5 => self.0 & 3,
            _ => if rnd() % 4 == 0 { rnd() } else { self.0 },
        }
    }
}
