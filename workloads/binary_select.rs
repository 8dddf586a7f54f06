use mpstthree::binary::select::{select, select_mut};
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary::{cancel::cancel, close::close, recv::recv, send::send};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier, Condvar, Mutex};
use vmon::*;

type S2 = Recv<u64, End>;
type S1 = Recv<(u64, Tok), S2>;
type D1 = Send<(u64, Tok), Send<u64, End>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Peer { Normal, DropBefore, DropSecond, PanicBefore, Held }

fn key(i: usize, a: u64) -> u64 { mix(i as u64 * 77 + a) }

/// Empties a vector of sessions with select or select_mut; exact accounting.
fn run(rng: &mut Rng, st: &mut Stats, name: &'static str, use_mut: bool, max: u64) {
    let n = rng.below(max + 1) as usize;
    let salt = rng.next();
    let held_mode = n >= 2 && rng.chance(1, 3);
    let peers: Vec<Peer> = (0..n).map(|_| match rng.below(if held_mode { 12 } else { 8 }) {
        0 => Peer::DropBefore, 1 => Peer::DropSecond, 2 => Peer::PanicBefore, 3..=7 => Peer::Normal, _ => Peer::Held,
    }).collect();
    // held senders only send once all others have been selected: select must not wait for them
    let others = peers.iter().filter(|p| **p != Peer::Held).count();
    let gate = Arc::new((Mutex::new(others == 0), Condvar::new()));
    let mut rs: Vec<S1> = vec![];
    let mut hs = vec![];
    for i in 0..n {
        let (r, s) = <S1 as Session>::new();
        rs.push(r);
        let (p, d, g) = (peers[i], rng.below(120), gate.clone());
        let yields = rng.below(3);
        hs.push(std::thread::spawn(move || -> bool {
            if yields == 1 { std::thread::sleep(std::time::Duration::from_micros(d)); }
            match p {
                Peer::DropBefore => { cancel(s); false }
                Peer::PanicBefore => { let _keep = s; panic!("peer") }
                _ => {
                    if p == Peer::Held {
                        let mut x = g.0.lock().unwrap();
                        while !*x { x = g.1.wait(x).unwrap(); }
                    }
                    let s = send((key(i, salt), Tok::make(key(i, salt))), s);
                    if p == Peer::DropSecond { return false; }
                    let s = send(key(i, salt ^ 1), s);
                    close(s).is_ok()
                }
            }
        }));
    }
    let mut order = vec![];
    let mut got: BTreeMap<u64, bool> = BTreeMap::new();
    let mut errs = 0;
    let mut bad: Vec<String> = vec![];
    let mut done_others = 0;
    let total = n;
    let mut conts = vec![];
    for step in 0..total {
        let before = rs.len();
        let res = if use_mut { select_mut(&mut rs) } else { let (r, v) = select(std::mem::take(&mut rs)); rs = v; r };
        next_seq();
        if rs.len() + 1 != before { bad.push(format!("step {step}: {} sessions before, {} after the selection", before, rs.len())); break; }
        match res {
            Ok(((k, tok), cont)) => {
                if tok.fp() != k { bad.push(format!("payload corrupted: {k:x} vs {:x}", tok.fp())); }
                if got.insert(k, true).is_some() { bad.push(format!("value {k:x} delivered twice")); }
                let i = (0..n).find(|i| key(*i, salt) == k);
                match i {
                    None => bad.push(format!("value {k:x} was never sent")),
                    Some(i) => {
                        order.push(i);
                        if peers[i] != Peer::Held { done_others += 1; }
                        conts.push((i, cont));
                    }
                }
            }
            Err(_) => { errs += 1; done_others += 1; }
        }
        if done_others >= others { let mut x = gate.0.lock().unwrap(); *x = true; gate.1.notify_all(); }
    }
    // the continuation must be that of the same session
    let mut closed = vec![false; n];
    for (i, c) in conts {
        match recv(c) {
            Ok((v, e)) => {
                if v != key(i, salt ^ 1) { bad.push(format!("continuation of session {i} delivered a value of another session")); }
                if peers[i] == Peer::DropSecond { bad.push(format!("session {i} delivered a second value that was never sent")); }
                closed[i] = close(e).is_ok();
                if !closed[i] { bad.push(format!("close of the continuation of session {i} failed")); }
            }
            Err(_) => if peers[i] != Peer::DropSecond { bad.push(format!("continuation of session {i} failed although its peer is alive")); },
        }
    }
    { let mut x = gate.0.lock().unwrap(); *x = true; gate.1.notify_all(); }
    if !bad.is_empty() { rs.clear(); }
    let joined: Vec<Option<bool>> = hs.into_iter().map(|h| h.join().ok()).collect();
    let dead = peers.iter().filter(|p| matches!(p, Peer::DropBefore | Peer::PanicBefore)).count();
    if bad.is_empty() {
        if errs != dead { bad.push(format!("{errs} errors for {dead} dead peers")); }
        if got.len() != n - dead { bad.push(format!("{} of {} sent messages delivered", got.len(), n - dead)); }
        if !rs.is_empty() { bad.push("sessions left over".into()); }
        for i in 0..n { if matches!(peers[i], Peer::Normal | Peer::Held) && joined[i] != Some(true) { bad.push(format!("sender {i} did not close")); } }
    }
    // selecting over nothing is an error
    let mut empty: Vec<S1> = vec![];
    if select_mut(&mut empty).is_ok() { bad.push("select_mut over nothing succeeded".into()); }
    if select(empty).0.is_ok() { bad.push("select over nothing succeeded".into()); }
    st.add("messages_selected", got.len() as u64);
    st.add("dead_peers_reported", errs as u64);
    st.add("held_back_senders", (n - others) as u64);
    if n >= 2 {
        let h = order.iter().fold(mix(n as u64 * 31 + peers.iter().fold(0, |a, p| a * 5 + *p as u64)), |h, i| mix(h ^ *i as u64));
        st.inter.insert(h);
    }
    if st.samples.len() < 3 { st.samples.push(json::esc(&format!("{name} n={n} peers={peers:?} order={order:?} errs={errs}"))); }
    for b in bad { st.violation(name, "select", &format!("n={n} peers={peers:?} order={order:?}: {b}"), "null".into()); }
}
fn case_mut(rng: &mut Rng, st: &mut Stats) { run(rng, st, "select_mut", true, 12) }
fn case_val(rng: &mut Rng, st: &mut Stats) { run(rng, st, "select", false, 12) }
fn case_small(rng: &mut Rng, st: &mut Stats) { let m = rng.chance(1, 2); run(rng, st, "select_small", m, 3) }

fn main() {
    case_loop(vec![Case { name: "select_mut", f: case_mut }, Case { name: "select", f: case_val }, Case { name: "select_small", f: case_small }], 20)
}
