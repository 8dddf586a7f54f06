//! Payloads. Every value sent is derived from a unique id, so that a receipt identifies the send.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub trait Payload: 'static {
    fn make(uid: u64) -> Self;
    fn fp(&self) -> u64;
}
/// only for programs that must be refused
impl Payload for std::rc::Rc<u64> {
    fn make(u: u64) -> Self { std::rc::Rc::new(u) }
    fn fp(&self) -> u64 { **self }
}
impl Payload for u64 {
    fn make(u: u64) -> Self { if u % 4 == 0 { mix(u) } else { u } }
    fn fp(&self) -> u64 { *self }
}
impl Payload for i32 {
    fn make(u: u64) -> Self { match mix(!u) % 32 { 0 => 0, 1 => -1, 2 => i32::MIN, 3 => i32::MAX, _ => mix(u) as i32 } }
    fn fp(&self) -> u64 { *self as u32 as u64 }
}
impl Payload for i64 {
    fn make(u: u64) -> Self { match mix(!u) % 32 { 0 => 0, 1 => -1, 2 => i64::MIN, 3 => i64::MAX, _ => mix(u) as i64 } }
    fn fp(&self) -> u64 { *self as u64 }
}
impl Payload for u8 {
    fn make(u: u64) -> Self { mix(u) as u8 }
    fn fp(&self) -> u64 { *self as u64 }
}
impl Payload for bool {
    fn make(u: u64) -> Self { mix(u) & 1 == 1 }
    fn fp(&self) -> u64 { *self as u64 }
}
impl Payload for () {
    fn make(_: u64) -> Self {}
    fn fp(&self) -> u64 { 7 }
}
impl Payload for f64 {
    fn make(u: u64) -> Self { match mix(!u) % 16 { 0 => f64::NAN, 1 => -0.0, 2 => f64::NEG_INFINITY, 3 => 5e-324, _ => (mix(u) >> 12) as f64 } }
    fn fp(&self) -> u64 { self.to_bits() }
}
fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    for x in b { h = mix(h ^ (*x as u64)); }
    h
}
impl Payload for String {
    fn make(u: u64) -> Self {
        match mix(!u) % 128 {
            0 => String::new(),
            1 => format!("\0é漢🦀\n{u}"),
            2 => format!("{u}{}", "long".repeat(if cfg!(miri) { 9 } else { 10_000 })),
            _ => format!("m{:x}-{}", u, "x".repeat((mix(u) % 40) as usize)),
        }
    }
    fn fp(&self) -> u64 { hash_bytes(self.as_bytes()) }
}
impl Payload for Vec<u8> {
    fn make(u: u64) -> Self {
        let n = match mix(!u) % 512 { 0..=3 => 0, 4..=9 => 70_000, 10 => 1_000_000, _ => mix(u) % 300 };
        (0..if cfg!(miri) { n % 300 } else { n }).map(|i| mix(u ^ (i << 32)) as u8).collect()
    }
    fn fp(&self) -> u64 { hash_bytes(self) }
}
impl<A: Payload, B: Payload> Payload for (A, B) {
    fn make(u: u64) -> Self { (A::make(u), B::make(mix(u ^ 0x55))) }
    fn fp(&self) -> u64 { mix(self.0.fp()) ^ mix(self.1.fp().wrapping_add(1)).rotate_left(7) }
}
impl<A: Payload> Payload for Option<A> {
    fn make(u: u64) -> Self { if mix(u) % 4 == 0 { None } else { Some(A::make(u)) } }
    fn fp(&self) -> u64 { match self { None => 3, Some(a) => mix(a.fp()) } }
}
impl<A: Payload> Payload for Box<A> {
    fn make(u: u64) -> Self { Box::new(A::make(u)) }
    fn fp(&self) -> u64 { (**self).fp() }
}

pub static TOK_MADE: AtomicU64 = AtomicU64::new(0);
pub static TOK_LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOK_BAD: AtomicU64 = AtomicU64::new(0);
const ALIVE: u64 = 0xA11FE_0BEEF;
const DEAD: u64 = 0xDEAD_0DEAD;
/// A heap-owning token that counts its creations and drops.
pub struct Tok {
    pub uid: u64,
    state: Box<u64>,
}
impl Payload for Tok {
    fn make(uid: u64) -> Self {
        TOK_MADE.fetch_add(1, Ordering::SeqCst);
        TOK_LIVE.fetch_add(1, Ordering::SeqCst);
        Tok { uid, state: Box::new(ALIVE) }
    }
    fn fp(&self) -> u64 {
        if *self.state != ALIVE { TOK_BAD.fetch_add(1, Ordering::SeqCst); }
        self.uid
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if *self.state != ALIVE { TOK_BAD.fetch_add(1, Ordering::SeqCst); }
        *self.state = DEAD;
        TOK_LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
/// A large inline payload.
#[derive(Clone)]
pub struct Big(pub [u64; 40]);
impl Payload for Big {
    fn make(u: u64) -> Self {
        let mut a = [0; 40];
        for (i, x) in a.iter_mut().enumerate() { *x = mix(u.wrapping_add(i as u64)); }
        Big(a)
    }
    fn fp(&self) -> u64 { self.0.iter().fold(9, |h, x| mix(h ^ x)) }
}
