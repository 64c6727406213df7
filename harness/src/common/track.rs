//! Instrumented values, keys and hash functions.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Formatter};
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    live: i64,
    bad: Option<&'static str>,
}
impl Reg {
    fn add(&mut self) -> usize {
        self.alive.push(true);
        self.live += 1;
        self.alive.len() - 1
    }
    fn del(&mut self, s: usize) {
        if s == usize::MAX {
            return; // lives in a static
        }
        if s >= self.alive.len() || !self.alive[s] {
            self.bad = Some("double drop");
        } else {
            self.alive[s] = false;
            self.live -= 1;
        }
    }
    fn chk(&mut self, s: usize) {
        if s != usize::MAX && (s >= self.alive.len() || !self.alive[s]) {
            self.bad = Some("use after drop");
        }
    }
}
thread_local! {
    static VREG: RefCell<Reg> = RefCell::default();
    static KREG: RefCell<Reg> = RefCell::default();
    static LOG: RefCell<Vec<(bool, i64)>> = RefCell::default();
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static CUR: RefCell<Rc<BhKind>> = RefCell::new(Rc::new(BhKind::Good));
}
pub fn reset() {
    VREG.with(|r| *r.borrow_mut() = Reg::default());
    KREG.with(|r| *r.borrow_mut() = Reg::default());
}
pub fn live_values() -> i64 {
    VREG.with(|r| r.borrow().live)
}
pub fn live_keys() -> i64 {
    KREG.with(|r| r.borrow().live)
}
pub fn bad() -> Option<&'static str> {
    VREG.with(|r| r.borrow().bad).or(KREG.with(|r| r.borrow().bad))
}

/// Runs `f` and returns what the Debug implementations below were asked to print:
/// (true, key id) or (false, value).
pub fn debug_log(f: impl FnOnce() -> String) -> Vec<(bool, i64)> {
    LOG.with(|l| l.borrow_mut().clear());
    LOGGING.with(|l| l.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LOGGING.with(|l| l.set(false));
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log(key: bool, x: i64) {
    if LOGGING.with(Cell::get) {
        LOG.with(|l| l.borrow_mut().push((key, x)));
    }
}

/// Tracked value.
pub struct Tv {
    pub v: i64,
    pub s: usize,
}
impl Tv {
    pub fn new(v: i64) -> Self {
        Tv { v, s: VREG.with(|r| r.borrow_mut().add()) }
    }
    /// a value for statics, not tracked until cloned
    pub const fn konst(v: i64) -> Self {
        Tv { v, s: usize::MAX }
    }
    pub fn get(&self) -> i64 {
        VREG.with(|r| r.borrow_mut().chk(self.s));
        self.v
    }
}
impl Drop for Tv {
    fn drop(&mut self) {
        let _ = VREG.try_with(|r| r.borrow_mut().del(self.s));
    }
}
impl Clone for Tv {
    fn clone(&self) -> Self {
        Tv::new(self.get())
    }
}
impl PartialEq for Tv {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Eq for Tv {}
impl Debug for Tv {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        log(false, self.get());
        write!(f, "v{}", self.v)
    }
}
impl Serialize for Tv {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.get())
    }
}
impl<'de> Deserialize<'de> for Tv {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        i64::deserialize(d).map(Tv::new)
    }
}

/// Tracked key: ordered and hashed by its id.
pub struct Tk {
    pub id: i64,
    s: usize,
}
impl Tk {
    pub fn new(id: i64) -> Self {
        Tk { id, s: KREG.with(|r| r.borrow_mut().add()) }
    }
    pub fn get(&self) -> i64 {
        KREG.with(|r| r.borrow_mut().chk(self.s));
        self.id
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        let _ = KREG.try_with(|r| r.borrow_mut().del(self.s));
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        Tk::new(self.get())
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Eq for Tk {}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tk {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.get().cmp(&o.get())
    }
}
impl Hash for Tk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.get() as u64);
    }
}
impl Debug for Tk {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        log(true, self.get());
        write!(f, "k{}", self.id)
    }
}
impl Serialize for Tk {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.get())
    }
}
impl<'de> Deserialize<'de> for Tk {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        i64::deserialize(d).map(Tk::new)
    }
}

/// Hash function families.
#[derive(Clone, Debug)]
pub enum BhKind {
    Good,
    Const(u64),
    Low(u32),
    High(u32),
    Ident,
    Shift(u32),
    Table(Vec<u64>),
}
pub fn set_bh(k: BhKind) {
    CUR.with(|c| *c.borrow_mut() = Rc::new(k));
}
#[derive(Clone)]
pub struct Bh(Rc<BhKind>);
impl Default for Bh {
    fn default() -> Self {
        Bh(CUR.with(|c| c.borrow().clone()))
    }
}
pub struct BhHasher {
    k: Rc<BhKind>,
    acc: u64,
    n: u32,
}
fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    x ^ (x >> 33)
}
impl BhHasher {
    fn put(&mut self, x: u64) {
        self.acc = if self.n == 0 { x } else { mix(self.acc).wrapping_add(x) };
        self.n += 1;
    }
}
impl Hasher for BhHasher {
    fn write(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325_u64;
        for x in b {
            h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
        self.put(h);
    }
    fn write_u8(&mut self, x: u8) { self.put(u64::from(x)) }
    fn write_u16(&mut self, x: u16) { self.put(u64::from(x)) }
    fn write_u32(&mut self, x: u32) { self.put(u64::from(x)) }
    fn write_u64(&mut self, x: u64) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u64) }
    fn finish(&self) -> u64 {
        let a = self.acc;
        match &*self.k {
            BhKind::Good => mix(a),
            BhKind::Const(c) => *c,
            BhKind::Low(b) => mix(a) & ((1u64 << b) - 1),
            BhKind::High(b) => (mix(a) & ((1u64 << b) - 1)) << (64 - b),
            BhKind::Ident => a,
            BhKind::Shift(n) => a.wrapping_shl(*n),
            BhKind::Table(t) => t[(a % t.len() as u64) as usize],
        }
    }
}
impl BuildHasher for Bh {
    type Hasher = BhHasher;
    fn build_hasher(&self) -> BhHasher {
        BhHasher { k: self.0.clone(), acc: 0, n: 0 }
    }
}
