// attempt! blocks: the generator writes each block twice, as real code and as data; both must leave the same trail.
use mpstthree::attempt;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary::{close::close, recv::recv, send::send, cancel::cancel};
use std::cell::RefCell;
use std::error::Error;
use std::sync::atomic::Ordering;
use std::thread::JoinHandle;
use vmon::*;

/// Errors: carry the number of the statement that failed
pub trait Code { fn mk(id: u32) -> Self; fn id(&self) -> u32; }
impl Code for String { fn mk(id: u32) -> Self { format!("e{id}") } fn id(&self) -> u32 { self[1..].parse().unwrap_or(u32::MAX) } }
impl Code for u32 { fn mk(id: u32) -> Self { id } fn id(&self) -> u32 { *self } }
impl Code for Box<dyn Error> { fn mk(id: u32) -> Self { format!("e{id}").into() } fn id(&self) -> u32 { Code::id(&self.to_string()) } }
/// owns a counted token
pub struct Owned(pub Tok, pub u32);
impl Code for Owned { fn mk(id: u32) -> Self { Owned(Tok::make(id as u64), id) } fn id(&self) -> u32 { self.1 } }
impl std::fmt::Debug for Owned { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.1) } }

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Ev { Begin(u32), Handler(u32, u32), Effect(u32), After(u32), PeerOk(u32), PeerErr(u32) }

pub type Talk = Send<u64, Recv<u64, Send<u64, End>>>;

pub struct Env<'a> {
    pub fail: &'a [u8],
    pub log: RefCell<Vec<Ev>>,
    pub peers: RefCell<Vec<Option<JoinHandle<bool>>>>,
}
impl<'a> Env<'a> {
    pub fn ev(&self, e: Ev) { self.log.borrow_mut().push(e); }
    pub fn bad(&self, id: u32) -> bool { self.fail[id as usize] != 0 }
    pub fn step<T: Payload, E: Code>(&self, id: u32) -> Result<T, E> {
        self.ev(Ev::Begin(id));
        if self.bad(id) { Err(E::mk(id)) } else { Ok(T::make(id as u64)) }
    }
    pub fn end<E: Code>(&self, id: u32) -> Result<(), E> { if self.bad(id) { Err(E::mk(id)) } else { Ok(()) } }
    /// forks the peer of a conversation
    pub fn open(&self, id: u32) -> Talk {
        let (s, d) = Talk::new();
        let f = self.fail[id as usize];
        let h = std::thread::spawn(move || -> bool {
            let mut go = || -> Result<(), Box<dyn Error>> {
                let (x, d) = recv(d)?;
                if f == 3 { cancel(d); return Ok(()); }
                let d = send(mix(x), d);
                let (y, d) = recv(d)?;
                if y != x + 1 { return Err("value".into()); }
                close(d)
            };
            go().is_ok()
        });
        let mut p = self.peers.borrow_mut();
        while p.len() <= id as usize { p.push(None); }
        p[id as usize] = Some(h);
        s
    }
    /// a conversation as a statement; fails on its own account (1: before, 2: half way) or because the peer left (3)
    pub fn talk<E: Code>(&self, id: u32, s: Talk) -> Result<(), E> {
        self.ev(Ev::Begin(id));
        let f = self.fail[id as usize];
        if f == 1 { return Err(E::mk(id)); }
        let s = send(100 + id as u64, s);
        let (r, s) = recv(s).map_err(|_| E::mk(id))?;
        if f == 2 { return Err(E::mk(id)); }
        if r != mix(100 + id as u64) { return Ok(()); }
        let s = send(101 + id as u64, s);
        close(s).map_err(|_| E::mk(id))
    }
    /// waits for the peer: never returns if the interrupted body still holds its session
    pub fn join(&self, id: u32) {
        let h = self.peers.borrow_mut()[id as usize].take();
        let ok = h.map(|h| h.join().unwrap_or(false));
        if let Some(ok) = ok { self.ev(if ok { Ev::PeerOk(id) } else { Ev::PeerErr(id) }); }
    }
}

/// The same blocks as data.
pub enum St { Leaf(u32), Talk(u32), Nest(u32, &'static Blk) }
pub enum Hd { Effect(u32), Nest(&'static Blk) }
pub struct Blk { pub id: u32, pub body: &'static [St], pub handler: &'static [Hd], pub leave: bool }

fn talks(b: &Blk, out: &mut Vec<u32>) { for s in b.body { if let St::Talk(i) = s { out.push(*i) } } }

/// what must be seen; returns false when the handler left the enclosing function
pub fn model(b: &Blk, fail: &[u8], out: &mut Vec<Ev>) -> bool {
    let mut err = None;
    let mut done = vec![];
    for s in b.body {
        let id = match s {
            St::Leaf(i) => { out.push(Ev::Begin(*i)); *i }
            St::Talk(i) => { out.push(Ev::Begin(*i)); done.push(*i); *i }
            St::Nest(i, n) => { out.push(Ev::Begin(*i)); model(n, fail, out); *i }
        };
        if fail[id as usize] != 0 { err = Some(id); break; }
    }
    let mut t = vec![];
    talks(b, &mut t);
    let peers = |out: &mut Vec<Ev>| for i in &t {
        let ok = done.contains(i) && (fail[*i as usize] == 0 || fail[*i as usize] == 3);
        out.push(if ok { Ev::PeerOk(*i) } else { Ev::PeerErr(*i) });
    };
    if let Some(c) = err {
        out.push(Ev::Handler(b.id, c));
        peers(out);
        for h in b.handler { match h { Hd::Effect(i) => out.push(Ev::Effect(*i)), Hd::Nest(n) => { model(n, fail, out); } } }
        if b.leave { return false; }
    } else {
        peers(out);
    }
    out.push(Ev::After(b.id));
    true
}

pub fn drive(name: &'static str, n: usize, talk_ids: &[u32], root: &'static Blk, f: fn(&Env), rng: &mut Rng, st: &mut Stats) {
    let live = TOK_LIVE.load(Ordering::SeqCst);
    let mut fails: Vec<Vec<u8>> = vec![vec![0; n]];
    for i in 0..n {
        let kinds: &[u8] = if talk_ids.contains(&(i as u32)) { &[1, 2, 3] } else { &[1] };
        for k in kinds { let mut v = vec![0; n]; v[i] = *k; fails.push(v); }
    }
    for _ in 0..n + 4 {
        let p = 2 + rng.below(5);
        fails.push((0..n).map(|i| if rng.below(p) == 0 { if talk_ids.contains(&(i as u32)) { 1 + rng.below(3) as u8 } else { 1 } } else { 0 }).collect());
    }
    for fl in fails {
        let mut exp = vec![];
        model(root, &fl, &mut exp);
        let env = Env { fail: &fl, log: RefCell::new(vec![]), peers: RefCell::new(vec![]) };
        f(&env);
        let got = env.log.borrow().clone();
        st.add("blocks_run", 1);
        st.add("events_compared", exp.len() as u64);
        st.add("handlers_run", exp.iter().filter(|e| matches!(e, Ev::Handler(..))).count() as u64);
        st.add("peer_failures_seen", exp.iter().filter(|e| matches!(e, Ev::PeerErr(..))).count() as u64);
        st.inter.insert(hash_str(&format!("{name} {got:?}")));
        if got != exp {
            let k = got.iter().zip(&exp).take_while(|(a, b)| a == b).count();
            let d = format!("{{\"failing\":{},\"got\":{},\"expected\":{}}}", vmon::json::esc(&format!("{fl:?}")), vmon::json::esc(&format!("{got:?}")), vmon::json::esc(&format!("{exp:?}")));
            st.violation(name, "trail", &format!("at event {k}: {:?}, but the block prescribes {:?}", got.get(k), exp.get(k)), d);
            return;
        }
        drop(env);
        let now = TOK_LIVE.load(Ordering::SeqCst);
        if now != live { st.violation(name, "leak", &format!("{} values of skipped or failed statements are still alive", now - live), "null".into()); return; }
        next_seq();
    }
}
