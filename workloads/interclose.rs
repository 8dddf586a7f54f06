//! One thread closes several endpoints at once (close_mpst_interleaved): endpoints of one session, of different ones,
//! or some of each; the other participants of these sessions run in threads of their own and close, or stop.
#![recursion_limit = "256"]
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::name::Name;
use mpstthree::role::{end::RoleEnd, Role};
use std::error::Error;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use vmon::*;

/// what the participants of one session did: a bit per role
#[derive(Default)]
struct Sess { called: AtomicU32, ok: AtomicU32, early: AtomicU32 }

fn links(n: usize) -> Vec<Vec<End>> {
    let mut m: Vec<Vec<Option<End>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
    for a in 0..n {
        for b in a + 1..n {
            let (x, y) = End::new();
            m[a][b] = Some(x);
            m[b][a] = Some(y);
        }
    }
    m.into_iter().map(|r| r.into_iter().flatten().collect()).collect()
}

/// n endpoints are closed by the caller; `close_all` closes them, `close_one` closes that of another participant
fn run<M: Send + 'static>(rng: &mut Rng, st: &mut Stats, name: &str, n: usize, mk: fn(Vec<End>) -> M,
    close_all: fn(Vec<M>) -> Result<(), Box<dyn Error>>, close_one: fn(M) -> Result<(), Box<dyn Error>>) {
    let k = 1 + rng.below(n as u64) as usize;
    // which session each of the caller's endpoints belongs to
    let mut of: Vec<usize> = (0..n).map(|i| if i < k { i } else { rng.below(k as u64) as usize }).collect();
    for i in (1..n).rev() { of.swap(i, rng.below(i as u64 + 1) as usize); }
    let sess: Vec<Arc<Sess>> = (0..k).map(|_| Arc::default()).collect();
    let mut ends: Vec<Vec<Option<M>>> = (0..k).map(|_| links(n).into_iter().map(|l| Some(mk(l))).collect()).collect();
    let mut mine = vec![];
    for s in &of {
        let free: Vec<usize> = (0..n).filter(|r| ends[*s][*r].is_some()).collect();
        let r = free[rng.below(free.len() as u64) as usize];
        mine.push((ends[*s][r].take().unwrap(), *s, r));
    }
    let stops = if rng.chance(1, 3) { 0 } else { rng.below(3) };
    let others: Vec<(usize, usize)> = (0..k).flat_map(|s| (0..n).map(move |r| (s, r))).filter(|(s, r)| ends[*s][*r].is_some()).collect();
    let stopping: Vec<(usize, usize)> = if others.is_empty() { vec![] } else { (0..stops).map(|_| others[rng.below(others.len() as u64) as usize]).collect() };
    let mut hs = vec![];
    for (s, r) in &others {
        let (e, w, s1, r1) = (ends[*s][*r].take().unwrap(), sess[*s].clone(), *s, *r);
        let stop = stopping.contains(&(s1, r1));
        let pause = if rng.chance(1, 2) { rng.below(300) } else { 0 };
        hs.push(std::thread::spawn(move || {
            if pause > 0 { std::thread::sleep(Duration::from_micros(pause)); }
            if stop { drop(e); return; }
            w.called.fetch_or(1 << r1, SeqCst);
            if close_one(e).is_ok() {
                if w.called.load(SeqCst) != (1 << n) - 1 { w.early.fetch_or(1 << r1, SeqCst); }
                w.ok.fetch_or(1 << r1, SeqCst);
                next_seq();
            }
        }));
    }
    if rng.chance(1, 2) { std::thread::sleep(Duration::from_micros(rng.below(300))); }
    for (_, s, r) in &mine { sess[*s].called.fetch_or(1 << r, SeqCst); }
    let ok = close_all(mine.into_iter().map(|m| m.0).collect()).is_ok();
    let all = (1u32 << n) - 1;
    let seen: Vec<u32> = sess.iter().map(|s| s.called.load(SeqCst)).collect();
    for h in hs { let _ = h.join(); }
    let what = format!("{n} endpoints of sessions {of:?}, (session, role) {stopping:?} stopped without closing");
    let mut bad = vec![];
    if ok && !stopping.is_empty() { bad.push(("close", format!("{what}: closing them together succeeded"))); }
    if ok && seen.iter().any(|c| *c != all) { bad.push(("barrier", format!("{what}: closing them together succeeded before everybody called close"))); }
    if !ok && stopping.is_empty() { bad.push(("close", format!("{what}: closing them together failed although everybody closes"))); }
    for (i, s) in sess.iter().enumerate() {
        let (c, o) = (s.called.load(SeqCst), s.ok.load(SeqCst));
        if o != 0 && c != all { bad.push(("close", format!("{what}: roles {o:b} of session {i} closed with success, only {c:b} called close"))); }
        let early = s.early.load(SeqCst);
        if early != 0 { bad.push(("barrier", format!("{what}: roles {early:b} of session {i} closed with success before everybody called close"))); }
        let others_of: u32 = others.iter().filter(|x| x.0 == i).map(|x| 1 << x.1).sum();
        if stopping.is_empty() && o != others_of { bad.push(("close", format!("{what}: only roles {o:b} of session {i} closed with success"))); }
    }
    st.add("closings_of_several_endpoints", 1);
    st.add("closings_with_a_participant_gone", !stopping.is_empty() as u64);
    st.inter.insert(mix(n as u64 ^ (of.iter().fold(0, |h, x| h * 8 + *x as u64)) << 8 ^ (ok as u64) << 60) ^ mix(hash_str(&format!("{stopping:?}"))));
    for (c, b) in bad { st.violation(name, c, &b, "null".into()); }
}

macro_rules! size {
    ($m:ident, $n:literal, $roles:tt, ($($s:ident)*), ($($x:ident)*)) => {
        mod $m {
            use super::*;
            size!(@gen $roles);
            mpstthree::close_mpst_interleaved!(close_all, MeshedChannels, $n);
            type M = MeshedChannels<$(size!(@end $s),)* RoleEnd, NameA>;
            fn mk(l: Vec<End>) -> M {
                let mut l = l.into_iter();
                $(let $s = l.next().unwrap();)*
                M { $($s,)* stack: RoleEnd::new().0, name: NameA::new().0 }
            }
            fn all(l: Vec<M>) -> Result<(), Box<dyn Error>> {
                let mut l = l.into_iter();
                $(let $x = l.next().unwrap();)*
                close_all($($x),*)
            }
            fn one(s: M) -> Result<(), Box<dyn Error>> { s.close() }
            pub fn case(rng: &mut Rng, st: &mut Stats) { run(rng, st, stringify!($m), $n, mk, all, one) }
        }
    };
    (@gen ($($r:ident)*)) => { mpstthree::generate!("rec_and_cancel", MeshedChannels $(, $r)*); };
    (@end $s:ident) => { End };
}
size!(two, 2, (A B), (session1), (x1 x2));
size!(three, 3, (A B C), (session1 session2), (x1 x2 x3));
size!(four, 4, (A B C D), (session1 session2 session3), (x1 x2 x3 x4));
size!(five, 5, (A B C D E), (session1 session2 session3 session4), (x1 x2 x3 x4 x5));

mod builtin {
    use super::*;
    use mpstthree::functionmpst::close::close_mpst;
    use mpstthree::interleaved::close::close_mpst_interleaved;
    use mpstthree::meshedchannels::MeshedChannels;
    use mpstthree::name::a::NameA;
    type M = MeshedChannels<End, End, RoleEnd, NameA>;
    fn mk(l: Vec<End>) -> M {
        let mut l = l.into_iter();
        let (session1, session2) = (l.next().unwrap(), l.next().unwrap());
        MeshedChannels { session1, session2, stack: RoleEnd::new().0, name: NameA::new().0 }
    }
    fn all(l: Vec<M>) -> Result<(), Box<dyn Error>> {
        let mut l = l.into_iter();
        let (a, b, c) = (l.next().unwrap(), l.next().unwrap(), l.next().unwrap());
        close_mpst_interleaved(a, b, c)
    }
    fn one(s: M) -> Result<(), Box<dyn Error>> { close_mpst(s) }
    pub fn case(rng: &mut Rng, st: &mut Stats) { run(rng, st, "builtin", 3, mk, all, one) }
}

fn main() {
    case_loop(vec![Case { name: "two", f: two::case }, Case { name: "three", f: three::case }, Case { name: "four", f: four::case },
        Case { name: "five", f: five::case }, Case { name: "builtin", f: builtin::case }], 10)
}
