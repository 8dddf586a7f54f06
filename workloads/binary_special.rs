//! Session delegation, long conversations, bursts of sends, many sessions at once.
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary::{cancel::cancel, close::close, fork::{fork, fork_with_thread_id}, recv::recv, send::{send, send_canceled}};
use mpstthree::{choose, offer};
use std::error::Error;
use vmon::*;

type Inner = Recv<Tok, Send<u64, End>>;
type Deleg = Send<Inner, Recv<u64, End>>;

/// A delegates one endpoint of a session with C to B; B must talk to C.
fn delegation(rng: &mut Rng, st: &mut Stats) {
    let (u, w) = (rng.next(), rng.next());
    let (inner, inner_dual) = <Inner as Session>::new();
    let early = rng.chance(1, 2);
    // B
    let (hb, a) = fork_with_thread_id(move |s: <Deleg as Session>::Dual| {
        let (i, s) = recv(s)?;
        let (t, i) = recv(i)?;
        let f = t.fp();
        let i = send(w, i);
        close(i)?;
        let s = send(f, s);
        close(s)
    });
    // C
    let hc = std::thread::spawn(move || -> Result<u64, String> {
        let s = send(Tok::make(u), inner_dual);
        let (x, s) = recv(s).map_err(|e| e.to_string())?;
        close(s).map_err(|e| e.to_string())?;
        Ok(x)
    });
    if !early { std::thread::yield_now(); }
    let a = send(inner, a);
    let r = recv(a);
    let mut bad = vec![];
    match r {
        Ok((v, a)) => { if v != u { bad.push(format!("delegated session delivered {v:x} instead of {u:x}")); } if close(a).is_err() { bad.push("close failed".into()); } }
        Err(e) => bad.push(format!("receive failed: {e}")),
    }
    if hb.join().is_err() { bad.push("delegate failed".into()); }
    match hc.join() { Ok(Ok(x)) if x == w => {} o => bad.push(format!("third party saw {o:?} instead of {w:x}")) }
    st.add("messages_matched", 4);
    st.inter.insert(mix(u));
    for b in bad { st.violation("delegation", "payload", &b, "null".into()); }
}

enum Loop { More(Recv<(u64, Tok), Send<u64, Recv<Loop, End>>>), Stop(End) }
type LoopS = Recv<Loop, End>;

fn looper(s: LoopS, acc: &mut Vec<u64>) -> Result<(), Box<dyn Error>> {
    let (l, e) = recv(s)?;
    cancel(e);
    match l {
        Loop::Stop(s) => close(s),
        Loop::More(s) => {
            let ((x, t), s) = recv(s)?;
            if t.fp() != x { return Err("token does not match".into()); }
            acc.push(x);
            let s = send(mix(x), s);
            looper(s, acc)
        }
    }
}
/// A recursive conversation of up to 400 rounds.
fn long(rng: &mut Rng, st: &mut Stats) {
    let n = rng.below(400);
    let base = rng.next();
    let (tx, rx) = std::sync::mpsc::channel();
    let (h, s) = fork_with_thread_id(move |s: LoopS| {
        let mut v = vec![];
        let r = looper(s, &mut v);
        let _ = tx.send(v);
        r
    });
    let mut s: Send<Loop, End> = s;
    let mut bad = vec![];
    for i in 0..n {
        let x = mix(base ^ i);
        let c = choose!(Loop::More, s);
        let c = send((x, Tok::make(x)), c);
        match recv(c) {
            Ok((y, c)) => { if y != mix(x) { bad.push(format!("round {i}: got {y:x}")); } s = c; }
            Err(e) => { bad.push(format!("round {i}: {e}")); for b in bad { st.violation("long", "lost", &b, "null".into()); } return; }
        }
        if i % 64 == 0 { next_seq(); }
    }
    let e = choose!(Loop::Stop, s);
    if close(e).is_err() { bad.push("close failed".into()); }
    if h.join().is_err() { bad.push("peer failed".into()); }
    let v = rx.recv().unwrap_or_default();
    let want: Vec<u64> = (0..n).map(|i| mix(base ^ i)).collect();
    if v != want { bad.push(format!("peer received {} values, {} expected, or in the wrong order", v.len(), n)); }
    st.add("messages_matched", 2 * n);
    st.inter.insert(mix(base));
    for b in bad { st.violation("long", "payload", &b, "null".into()); }
}

type Burst = Send<u64, Send<Tok, Send<String, Send<u64, Send<u64, Send<u64, Send<u64, Send<u64, Recv<u64, End>>>>>>>>>;
/// Eight sends complete before the peer does anything at all.
fn burst(rng: &mut Rng, st: &mut Stats) {
    let u = rng.next();
    let (s, r) = <Burst as Session>::new();
    let canc = rng.chance(1, 2);
    macro_rules! snd { ($x:expr, $s:expr) => { if canc { send_canceled($x, $s).unwrap() } else { send($x, $s) } }; }
    let s = snd!(u, s);
    let s = snd!(Tok::make(u ^ 1), s);
    let s = snd!(String::make(u), s);
    let s = snd!(u ^ 2, s);
    let s = snd!(u ^ 3, s);
    let s = snd!(u ^ 4, s);
    let s = snd!(u ^ 5, s);
    let s = snd!(u ^ 6, s);
    next_seq();
    let f = move || -> Result<(), String> {
        let go = || -> Result<Vec<u64>, Box<dyn Error>> {
            let (a, r) = recv(r)?;
            let (b, r) = recv(r)?;
            let (c, r) = recv(r)?;
            let (d, r) = recv(r)?;
            let (e, r) = recv(r)?;
            let (f, r) = recv(r)?;
            let (g, r) = recv(r)?;
            let (h, r) = recv(r)?;
            let r = send(99, r);
            close(r)?;
            Ok(vec![a, b.fp(), c.fp(), d, e, f, g, h])
        };
        let v = go().map_err(|e| e.to_string())?;
        let w = vec![u, u ^ 1, String::make(u).fp(), u ^ 2, u ^ 3, u ^ 4, u ^ 5, u ^ 6];
        if v == w { Ok(()) } else { Err(format!("received {v:x?} instead of {w:x?}")) }
    };
    let h = std::thread::spawn(f);
    let mut bad = vec![];
    match recv(s) { Ok((99, s)) => if close(s).is_err() { bad.push("close failed".to_string()) }, Ok((x, _)) => bad.push(format!("answer {x}")), Err(e) => bad.push(e.to_string()) }
    match h.join() { Ok(Ok(())) => {} Ok(Err(e)) => bad.push(e), Err(_) => bad.push("receiver panicked".into()) }
    st.add("messages_matched", 9);
    st.inter.insert(mix(u));
    for b in bad { st.violation("burst", "payload", &b, "null".into()); }
}

/// fork: the child really runs with the dual endpoint and its failure is visible in the join.
fn forks(rng: &mut Rng, st: &mut Stats) {
    let (u, fail) = (rng.next(), rng.below(4));
    let (h, s) = fork_with_thread_id(move |s: Recv<u64, Send<u64, End>>| {
        let (x, s) = recv(s)?;
        match fail {
            1 => return Err("child fails".into()),
            2 => panic!("child panics"),
            3 => { cancel(s); return Ok(()); }
            _ => {}
        }
        close(send(x ^ 1, s))
    });
    let s = send(u, s);
    let r = recv(s);
    let mut bad = vec![];
    match (fail, r) {
        (0, Ok((x, s))) => { if x != u ^ 1 { bad.push("wrong answer".to_string()); } if close(s).is_err() { bad.push("close failed".into()); } }
        (0, Err(e)) => bad.push(format!("child is alive but receive failed: {e}")),
        (_, Ok(_)) => bad.push("received a value the child never sent".into()),
        (_, Err(_)) => {}
    }
    let j = h.join().is_ok();
    if j != (fail == 0 || fail == 3) { bad.push(format!("join reported ok={j} for child behaviour {fail}")); }
    st.add("messages_matched", 1);
    st.inter.insert(mix(u));
    for b in bad { st.violation("forks", "join", &b, "null".into()); }
}

fn main() {
    case_loop(vec![Case { name: "delegation", f: delegation }, Case { name: "long", f: long }, Case { name: "burst", f: burst }, Case { name: "forks", f: forks }], 10)
}
