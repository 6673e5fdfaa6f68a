//! Keys, values, weighter, lifecycle and hasher that record what the cache does with them.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasher, Hash, Hasher};

thread_local! {
    pub static LIVE_K: Cell<i64> = const { Cell::new(0) };
    pub static LIVE_V: Cell<i64> = const { Cell::new(0) };
    pub static CBS: RefCell<Vec<[i64; 6]>> = const { RefCell::new(Vec::new()) };
    pub static REQ: Cell<i64> = const { Cell::new(0) };
    /// ids of the values that are pinned right now, per side of a pair of caches
    pub static PINS: RefCell<Option<[HashSet<i64>; 2]>> = const { RefCell::new(None) };
    /// which cache of a pair is being used
    pub static SIDE: Cell<usize> = const { Cell::new(0) };
}

pub fn cb(kind: i64, k: i64, id: i64, w: i64, w2: i64, req: i64) {
    CBS.with(|c| c.borrow_mut().push([kind, k, id, w, w2, req]));
}
pub fn take_cbs() -> Vec<[i64; 6]> {
    CBS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
pub fn is_pinned(id: i64) -> bool {
    PINS.with(|p| p.borrow().as_ref().is_some_and(|s| s[SIDE.with(|x| x.get())].contains(&id)))
}
pub fn set_pin(id: i64, on: bool) {
    PINS.with(|p| {
        let mut p = p.borrow_mut();
        let s = &mut p.get_or_insert_with(Default::default)[SIDE.with(|x| x.get())];
        if on {
            s.insert(id);
        } else {
            s.remove(&id);
        }
    });
}
pub fn reset_recording() {
    take_cbs();
    REQ.with(|r| r.set(0));
    PINS.with(|p| *p.borrow_mut() = Some(Default::default()));
    SIDE.with(|s| s.set(0));
}
pub fn set_side(s: usize) {
    SIDE.with(|x| x.set(s))
}
/// the second side starts with the pins of the first
pub fn copy_pins() {
    PINS.with(|p| {
        if let Some(p) = p.borrow_mut().as_mut() {
            p[1] = p[0].clone()
        }
    })
}

/// The borrowed form of a key; deliberately not Clone, so that ToOwned can produce a `K`.
#[derive(PartialEq, Eq, Debug)]
pub struct Q(pub i64);
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0 as u64)
    }
}
impl ToOwned for Q {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0)
    }
}

#[derive(Debug)]
pub struct K(Q);
impl K {
    pub fn new(k: i64) -> K {
        LIVE_K.with(|c| c.set(c.get() + 1));
        K(Q(k))
    }
    pub fn k(&self) -> i64 {
        self.0 .0
    }
}
impl Drop for K {
    fn drop(&mut self) {
        LIVE_K.with(|c| c.set(c.get() - 1));
        // a second drop of the same instance, or a use after it, shows up as key -7
        self.0 .0 = -7;
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        K::new(self.k())
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.0
    }
}

/// A value: identity, weight, what before_evict turns its weight into (< 0: unchanged).
#[derive(Debug)]
pub struct V {
    pub id: i64,
    pub w: i64,
    pub z: i64,
}
impl V {
    /// v = [id, w, pinned, z]
    pub fn new(v: [i64; 4]) -> V {
        LIVE_V.with(|c| c.set(c.get() + 1));
        if v[2] == 1 {
            set_pin(v[0], true);
        }
        V { id: v[0], w: v[1], z: v[3] }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE_V.with(|c| c.set(c.get() - 1));
        self.id = -7;
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        LIVE_V.with(|c| c.set(c.get() + 1));
        V { id: self.id, w: self.w, z: self.z }
    }
}

#[derive(Clone, Debug)]
pub struct We {
    /// weights are multiplied by this
    pub scale: u64,
}
impl quick_cache::Weighter<K, V> for We {
    fn weight(&self, _k: &K, v: &V) -> u64 {
        v.w as u64 * self.scale
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Hb {
    pub mode: u8,
}
pub struct Hs {
    mode: u8,
    x: u64,
}
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        let x = self.x;
        match self.mode {
            0 => crate::rng::mix(x),
            1 => x,
            2 => crate::rng::mix(x % 2),
            3 => 0,
            4 => u64::MAX,
            5 => x << 57,
            6 => (x % 3) << 32 | (x % 2) << 57,
            _ => crate::rng::mix(x % 5),
        }
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.x = self.x.wrapping_mul(31).wrapping_add(c as u64);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.x = i;
    }
}
impl Hb {
    /// whether keys 1..=120 have distinct hashes
    pub fn injective(self) -> bool {
        matches!(self.mode, 0 | 1 | 5)
    }
}
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs { mode: self.mode, x: 0 }
    }
}

/// Request state; its drop without end_request is recorded as callback kind 5.
pub struct Req {
    pub id: i64,
    pub done: bool,
    stash: Vec<(K, V)>,
}
impl Drop for Req {
    fn drop(&mut self) {
        if !self.done {
            cb(5, 0, 0, 0, 0, self.id);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Lc {
    /// keep evicted pairs in the request state until it is dropped
    pub stash: bool,
}
impl quick_cache::Lifecycle<K, V> for Lc {
    type RequestState = Req;
    fn is_pinned(&self, _k: &K, v: &V) -> bool {
        is_pinned(v.id)
    }
    fn begin_request(&self) -> Req {
        let id = REQ.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        cb(1, 0, 0, 0, 0, id);
        Req { id, done: false, stash: Vec::new() }
    }
    fn before_evict(&self, st: &mut Req, k: &K, v: &mut V) {
        let w = v.w;
        if v.z >= 0 {
            v.w = v.z;
        }
        cb(2, k.k(), v.id, w, v.w, st.id);
    }
    fn on_evict(&self, st: &mut Req, k: K, v: V) {
        cb(3, k.k(), v.id, v.w, 0, st.id);
        if self.stash {
            st.stash.push((k, v));
        }
    }
    fn end_request(&self, mut st: Req) {
        st.done = true;
        cb(4, 0, 0, 0, 0, st.id);
    }
}
