//! Keys and values that count their live instances.
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub static LIVE_K: AtomicI64 = AtomicI64::new(0);
pub static LIVE_V: AtomicI64 = AtomicI64::new(0);

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Q(pub i64);
impl ToOwned for Q {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0)
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct K(Q);
impl K {
    pub fn new(k: i64) -> K {
        LIVE_K.fetch_add(1, SeqCst);
        K(Q(k))
    }
    pub fn k(&self) -> i64 {
        self.0 .0
    }
}
impl Drop for K {
    fn drop(&mut self) {
        LIVE_K.fetch_sub(1, SeqCst);
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl std::borrow::Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.0
    }
}
#[derive(Debug)]
pub struct V {
    pub id: i64,
}
impl V {
    pub fn new(id: i64) -> V {
        LIVE_V.fetch_add(1, SeqCst);
        V { id }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.id)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE_V.fetch_sub(1, SeqCst);
        self.id = -7;
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Hb {
    pub collide: bool,
}
pub struct Hs(u64, bool);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        if self.1 {
            7
        } else {
            crate::prog::mix(self.0)
        }
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(c as u64);
        }
    }
    fn write_i64(&mut self, i: i64) {
        self.0 = i as u64;
    }
}
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(0, self.collide)
    }
}
