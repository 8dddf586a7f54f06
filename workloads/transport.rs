//! Sessions over TCP and UDP against a raw peer that records, echoes, injects, fragments or dies.
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary::close::close;
use mpstthree::transport::tcp::{cancel::cancel_tcp, close::close_tcp, fork::fork_tcp, recv::recv_tcp, send::send_tcp};
use mpstthree::transport::udp::{cancel::cancel_udp, fork::fork_udp, recv::recv_udp, send::send_udp};
use mpstthree::{choose_tcp, choose_udp, offer_tcp, offer_udp};
use std::error::Error;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use vmon::json::esc;
use vmon::*;

type D = [u8; 128];
type Res<T> = Result<T, Box<dyn Error>>;

enum L {
    R1(Recv<(u64, D), Rec>),
    S1(Send<(String, D), Rec>),
    R2(Recv<(Tok, D), Send<(Vec<u8>, D), Rec>>),
    P2(Recv<(u64, D), Recv<(String, D), Rec>>),
    Done(End),
}
type Rec = Recv<(D, L), End>;
type Cho = <Rec as Session>::Dual;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stop { Cancel, Drop, Panic, Fail }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Echo, Inject, Dies }
/// one message of the script: sent by the chooser (true) or by the offerer
#[derive(Clone, Debug)]
struct Msg { by_chooser: bool, uid: u64, on: bool, on_ix: usize, data: D, want: (usize, D) }
struct Case2 {
    labels: Vec<u8>,
    msgs: Vec<Msg>,
    mode: Mode,
    /// side (true: chooser), operation number, way
    stop: Option<(bool, u32, Stop)>,
    /// in Dies mode: number of messages answered
    alive_for: usize,
    close_tcp: (bool, bool),
    gone: [AtomicBool; 2],
    closing: [AtomicBool; 2],
    sent: [AtomicU32; 2],
    ops: [AtomicU32; 2],
    bad: Mutex<Vec<(&'static str, String)>>,
    oks: AtomicU32,
    errs: AtomicU32,
}
impl Case2 {
    fn find(&self, c: &'static str, m: String) { self.bad.lock().unwrap().push((c, m)); }
    fn new(rng: &mut Rng, udp: bool) -> Case2 {
        let mode = match rng.below(8) { 0..=3 => Mode::Echo, 4..=5 => Mode::Inject, _ => Mode::Dies };
        let n = rng.below(7) as usize;
        let mut labels: Vec<u8> = (0..n).map(|_| rng.below(4) as u8).collect();
        labels.push(4);
        let p_on = rng.below(4);
        let mut msgs = vec![];
        let mut on_ix = 0;
        for l in &labels {
            let who: &[bool] = match l { 0 => &[true], 1 => &[false], 2 => &[true, false], 3 => &[true, true], _ => &[] };
            for w in who {
                let uid = rng.next();
                let mut data = [0u8; 128];
                match rng.below(4) { 0 => {} 1 => data = [0xff; 128], _ => for (i, b) in data.iter_mut().enumerate() { *b = mix(uid ^ i as u64) as u8; } }
                // identity, so that a received block can be attributed
                data[100..108].copy_from_slice(&uid.to_le_bytes());
                let on = rng.chance(1 + p_on, 4);
                let want = if mode == Mode::Inject {
                    let mut w = [0u8; 128];
                    let len = if udp { match rng.below(5) { 0 => 0, 1 => 128, 2 => 200, _ => rng.below(129) as usize } } else { 128 };
                    for (i, b) in w.iter_mut().enumerate().take(len.min(128)) { *b = mix(uid ^ 0x77 ^ i as u64) as u8; }
                    (len, w)
                } else { (128, data) };
                msgs.push(Msg { by_chooser: *w, uid, on, on_ix, data, want });
                if on { on_ix += 1; }
            }
        }
        let stop = if mode != Mode::Dies && rng.chance(1, 2) {
            let side = rng.chance(1, 2);
            Some((side, rng.below(2 * n as u64 + 3) as u32, *rng.pick(&[Stop::Cancel, Stop::Cancel, Stop::Drop, Stop::Panic, Stop::Fail])))
        } else { None };
        let alive_for = if on_ix == 0 { 0 } else { rng.below(on_ix as u64 + 1) as usize };
        Case2 { labels, msgs, mode, stop, alive_for, close_tcp: (rng.chance(1, 2), rng.chance(1, 2)),
            gone: Default::default(), closing: Default::default(), sent: Default::default(), ops: Default::default(), bad: Default::default(), oks: AtomicU32::new(0), errs: AtomicU32::new(0) }
    }
    fn stop_here(&self, me: bool) -> Option<Stop> {
        let n = self.ops[me as usize].fetch_add(1, Ordering::SeqCst);
        match self.stop { Some((s, at, k)) if s == me && at == n => Some(k), _ => None }
    }
    fn other_stops(&self, me: bool) -> bool { matches!(self.stop, Some((s, _, _)) if s != me) }
    /// judges a receive of message m by side me
    fn got(&self, me: bool, m: usize, r: &Result<(u64, usize, D), String>) {
        let msg = &self.msgs[m];
        let c = format!("message {m} ({} -> {}, on socket: {}, mode {:?}, stop {:?})", side(!me), side(me), msg.on, self.mode, self.stop);
        match r {
            Ok((fp, len, data)) => {
                self.oks.fetch_add(1, Ordering::Relaxed);
                let want = fp_of(&self.labels, &self.msgs, m);
                if *fp != want { self.find("payload", format!("{c}: received value {fp:x} instead of {want:x}")); }
                if (self.sent[!me as usize].load(Ordering::SeqCst) as usize) <= self.rank(m) { self.find("ghost", format!("{c}: received a value before it was sent")); }
                if msg.on {
                    if self.mode == Mode::Dies && msg.on_ix >= self.alive_for { self.find("bytes", format!("{c}: {len} bytes reported although the connection ended before they were sent")); }
                    if *len != msg.want.0.min(128) || *data != msg.want.1 { self.find("bytes", format!("{c}: received {len} bytes {:x?}.. instead of {} bytes {:x?}..", &data[..8], msg.want.0, &msg.want.1[..8])); }
                } else if *len != 0 { self.find("bytes", format!("{c}: {len} bytes reported without using the socket")); }
            }
            Err(e) => {
                self.errs.fetch_add(1, Ordering::Relaxed);
                let sent = self.sent[!me as usize].load(Ordering::SeqCst) as usize > self.rank(m);
                let cut = msg.on && (self.mode == Mode::Dies || matches!(self.stop, Some((_, _, Stop::Cancel))));
                let cut_any = self.mode == Mode::Dies;
                if sent && !cut && !cut_any { self.find("lost", format!("{c}: was sent but its receive failed: {e}")); }
                if !sent && !self.other_stops(me) && !cut_any { self.find("failed", format!("{c}: receive failed although nobody stopped: {e}")); }
            }
        }
    }
    /// number of messages of the same sender in front of m
    fn rank(&self, m: usize) -> usize { self.msgs[..m].iter().filter(|x| x.by_chooser == self.msgs[m].by_chooser).count() }
    /// judges a send (m: message, None: selection)
    fn put(&self, me: bool, m: Option<usize>, was_gone: bool, r: &Result<usize, String>) {
        let c = format!("{} {:?} of the {} (mode {:?}, stop {:?})", if m.is_some() { "send" } else { "selection" }, m, side(me), self.mode, self.stop);
        match r {
            Ok(n) => {
                self.oks.fetch_add(1, Ordering::Relaxed);
                if was_gone && m.is_some() { self.find("ghost", format!("{c}: succeeded although the peer had gone")); }
                if let Some(m) = m { let w = if self.msgs[m].on { 128 } else { 0 }; if *n != w && *n != usize::MAX { self.find("bytes", format!("{c}: reported {n} bytes sent, expected {w}")); } }
            }
            Err(e) => {
                self.errs.fetch_add(1, Ordering::Relaxed);
                let cut = self.mode == Mode::Dies;
                if !self.other_stops(me) && !cut { self.find("failed", format!("{c}: failed although nobody stopped: {e}")); }
            }
        }
    }
    fn closed(&self, me: bool, r: &Res<()>) {
        match r {
            Ok(()) => {
                self.oks.fetch_add(1, Ordering::Relaxed);
                if !self.closing[!me as usize].load(Ordering::SeqCst) { self.find("close", format!("close of the {} succeeded although the peer never closed (stop {:?})", side(me), self.stop)); }
            }
            Err(e) => if !self.other_stops(me) && self.mode != Mode::Dies { self.find("close", format!("close of the {} failed although nobody stopped: {e}", side(me))); }
        }
    }
}
fn side(c: bool) -> &'static str { if c { "chooser" } else { "offerer" } }
/// fingerprint of message m (payload type depends on its label)
fn fp_of(labels: &[u8], msgs: &[Msg], m: usize) -> u64 {
    let mut i = 0;
    for l in labels {
        let n = match l { 0 | 1 => 1, 2 | 3 => 2, _ => 0 };
        if m < i + n {
            let u = msgs[m].uid;
            return match (l, m - i) { (0, _) | (3, 0) => <u64 as Payload>::make(u).fp(), (1, _) | (3, 1) => <String as Payload>::make(u).fp(), (2, 0) => u_tok(u), _ => <Vec<u8> as Payload>::make(u).fp() };
        }
        i += n;
    }
    0
}
fn u_tok(u: u64) -> u64 { u }

// ---- uniform view of both transports
mod tcp {
    use super::*;
    pub type Kx = TcpStream;
    pub fn snd<T: std::marker::Send, S: Session>(x: T, d: &D, s: Send<(T, D), S>, k: Kx, on: bool) -> Res<(S, usize, Kx)> { send_tcp(x, d, s, k, on).map(|(s, k)| (s, usize::MAX, k)) }
    pub fn rcv<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: Kx, on: bool) -> Res<(T, S, D, usize, Kx)> { recv_tcp(s, k, on).map(|(v, s, d, k)| (v, s, d, if on { 128 } else { 0 }, k)) }
    pub fn can<T>(s: T, k: Kx) { cancel_tcp(s, k) }
    pub fn clo(s: End, k: Kx, f: bool) -> Res<()> { close_tcp(s, k, f) }
}
mod udp {
    use super::*;
    pub type Kx = UdpSocket;
    pub fn snd<T: std::marker::Send, S: Session>(x: T, d: &D, s: Send<(T, D), S>, k: Kx, on: bool) -> Res<(S, usize, Kx)> { send_udp(x, d, s, k, on) }
    pub fn rcv<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: Kx, on: bool) -> Res<(T, S, D, usize, Kx)> { recv_udp(s, k, on) }
    pub fn can<T>(s: T, k: Kx) { cancel_udp(s, k) }
    pub fn clo(s: End, k: Kx, _f: bool) -> Res<()> { let r = close(s); drop(k); r }
}

macro_rules! roles {
    ($t:ident, $choose:ident, $offer:ident) => {
        pub mod $t {
            use super::*;
            use super::super::$t::*;
            macro_rules! stop { ($c:expr, $me:expr, $s:ident, $k:ident) => {
                if let Some(w) = $c.stop_here($me) {
                    match w {
                        Stop::Cancel => { let c2 = $c.clone(); let r = guarded(|| can($s, $k)); if let Err(e) = r { c2.find("cancel", format!("cancelling panicked: {e}")); } $c.gone[$me as usize].store(true, Ordering::SeqCst); return Ok(()); }
                        Stop::Drop => { drop($s); drop($k); $c.gone[$me as usize].store(true, Ordering::SeqCst); return Ok(()); }
                        Stop::Panic => { drop($s); $c.gone[$me as usize].store(true, Ordering::SeqCst); panic!("injected") }
                        Stop::Fail => { drop($s); drop($k); $c.gone[$me as usize].store(true, Ordering::SeqCst); return Err("injected".into()) }
                    }
                }
            } }
            macro_rules! put { ($c:expr, $me:expr, $m:expr, $ty:ty, $s:ident, $k:ident) => {{
                stop!($c, $me, $s, $k);
                let msg = $c.msgs[$m].clone();
                let g = $c.gone[!$me as usize].load(Ordering::SeqCst);
                $c.sent[$me as usize].fetch_add(1, Ordering::SeqCst);
                let x = <$ty as Payload>::make(msg.uid);
                let r = guarded(|| snd(x, &msg.data, $s, $k, msg.on).map_err(|e| e.to_string())).and_then(|x| x);
                $c.put($me, Some($m), g, &r.as_ref().map(|x| x.1).map_err(|e| e.clone()));
                let (s, _, k) = r?;
                (s, k)
            }} }
            macro_rules! got { ($c:expr, $me:expr, $m:expr, $ty:ty, $s:ident, $k:ident) => {{
                stop!($c, $me, $s, $k);
                let msg = $c.msgs[$m].clone();
                let r: Result<($ty, _, D, usize, Kx), String> = guarded(|| rcv($s, $k, msg.on).map_err(|e| e.to_string())).and_then(|x| x);
                $c.got($me, $m, &r.as_ref().map(|x| (x.0.fp(), x.3, x.2)).map_err(|e| e.clone()));
                let (_, s, _, _, k) = r?;
                (s, k)
            }} }
            pub fn chooser(c: &Arc<Case2>, s: Cho, k: Kx) -> Res<()> {
                let (mut s, mut k, mut m) = (s, k, 0);
                for l in c.labels.clone() {
                    stop!(c, true, s, k);
                    let g = c.gone[0].load(Ordering::SeqCst);
                    let none = [9u8; 128];
                    macro_rules! pick { ($v:path) => {{
                        let r = guarded(|| $choose!($v, s, none));
                        c.put(true, None, g, &r.as_ref().map(|_| 0).map_err(|e| e.clone()));
                        r?
                    }} }
                    match l {
                        0 => { let t = pick!(L::R1); let (t, k2) = put!(c, true, m, u64, t, k); s = t; k = k2; m += 1; }
                        1 => { let t = pick!(L::S1); let (t, k2) = got!(c, true, m, String, t, k); s = t; k = k2; m += 1; }
                        2 => { let t = pick!(L::R2); let (t, k2) = put!(c, true, m, Tok, t, k); let (t, k2) = got!(c, true, m + 1, Vec<u8>, t, k2); s = t; k = k2; m += 2; }
                        3 => { let t = pick!(L::P2); let (t, k2) = put!(c, true, m, u64, t, k); let (t, k2) = put!(c, true, m + 1, String, t, k2); s = t; k = k2; m += 2; }
                        _ => {
                            let t = pick!(L::Done);
                            stop!(c, true, t, k);
                            c.closing[1].store(true, Ordering::SeqCst);
                            let r = clo(t, k, c.close_tcp.0);
                            c.closed(true, &r);
                            return r;
                        }
                    }
                }
                Ok(())
            }
            pub fn offerer(c: &Arc<Case2>, s: Rec, k: Kx, i: usize, m: usize) -> Res<()> {
                stop!(c, false, s, k);
                let entered = std::cell::Cell::new(false);
                let c2 = c.clone();
                let en = &entered;
                let want = c.labels.get(i).copied().unwrap_or(9);
                let lab = move |l: u8| { en.set(true); if l != want { c2.find("branch", format!("offer {i} took branch {l}, selected was {want}")); } };
                let c3 = c.clone();
                let r: Res<()> = $offer!(s, {
                    L::R1(s) => { lab(0); let (s, k) = got!(c3, false, m, u64, s, k); offerer(&c3, s, k, i + 1, m + 1) },
                    L::S1(s) => { lab(1); let (s, k) = put!(c3, false, m, String, s, k); offerer(&c3, s, k, i + 1, m + 1) },
                    L::R2(s) => { lab(2); let (s, k) = got!(c3, false, m, Tok, s, k); let (s, k) = put!(c3, false, m + 1, Vec<u8>, s, k); offerer(&c3, s, k, i + 1, m + 2) },
                    L::P2(s) => { lab(3); let (s, k) = got!(c3, false, m, u64, s, k); let (s, k) = got!(c3, false, m + 1, String, s, k); offerer(&c3, s, k, i + 1, m + 2) },
                    L::Done(s) => {
                        lab(4);
                        stop!(c3, false, s, k);
                        c3.closing[0].store(true, Ordering::SeqCst);
                        let r = clo(s, k, c3.close_tcp.1);
                        c3.closed(false, &r);
                        r
                    },
                });
                if !entered.get() && r.is_ok() { c.find("branch", format!("offer {i} returned Ok without taking a branch")); }
                if !entered.get() && r.is_err() && !c.other_stops(false) && c.mode != Mode::Dies { c.find("failed", format!("offer {i} failed although nobody stopped")); }
                r
            }
        }
    };
}
mod roles {
    use super::*;
    roles!(tcp, choose_tcp, offer_tcp);
    roles!(udp, choose_udp, offer_udp);
}

fn judge(st: &mut Stats, name: &str, c: &Arc<Case2>, fork_chooser: bool) {
    st.add("operations_ok", c.oks.load(Ordering::Relaxed) as u64);
    st.add("operations_failed_as_expected", c.errs.load(Ordering::Relaxed) as u64);
    st.add(match c.mode { Mode::Echo => "echoing_peers", Mode::Inject => "injecting_peers", Mode::Dies => "dying_peers" }, 1);
    if c.stop.is_some() { st.add("stopped_sides", 1); }
    st.inter.insert(hash_str(&format!("{name}{fork_chooser}{:?}{:?}{:?}{:?}{}", c.labels, c.mode, c.stop, c.msgs.iter().map(|m| m.on).collect::<Vec<_>>(), c.alive_for)));
    let det = format!("{name}, forked side: {}, labels {:?}, mode {:?}, stop {:?}, on {:?}", side(fork_chooser), c.labels, c.mode, c.stop, c.msgs.iter().map(|m| m.on).collect::<Vec<_>>());
    for (cl, m) in c.bad.lock().unwrap().drain(..) { st.violation(name, cl, &format!("{m}; {det}"), esc(&det)); }
}
/// what a raw peer saw: blocks of 128 bytes of both senders
fn blocks(st: &mut Stats, name: &str, c: &Arc<Case2>, seen: &[D], rest: usize, clean: bool) {
    st.add("blocks_seen_by_raw_peer", seen.len() as u64);
    for who in [true, false] {
        let want: Vec<&D> = c.msgs.iter().filter(|m| m.on && m.by_chooser == who).map(|m| &m.data).collect();
        let ids: Vec<&[u8]> = want.iter().map(|d| &d[100..108]).collect();
        let got: Vec<&D> = seen.iter().filter(|d| ids.contains(&&d[100..108])).collect();
        let n = got.len();
        if n > want.len() || got.iter().zip(&want).any(|(a, b)| a != b) || (clean && n != want.len()) {
            st.violation(name, "bytes", &format!("the raw peer saw {n} blocks of the {} that are not the {} sent, in order (mode {:?}, stop {:?})", side(who), want.len(), c.mode, c.stop), "null".into());
        }
    }
    let known = seen.iter().filter(|d| c.msgs.iter().any(|m| m.on && m.data == **d)).count();
    if known != seen.len() || (clean && rest != 0) {
        st.violation(name, "bytes", &format!("the raw peer saw {} blocks nobody sent and {rest} stray bytes (mode {:?}, stop {:?})", seen.len() - known, c.mode, c.stop), "null".into());
    }
}

fn tcp_case(rng: &mut Rng, st: &mut Stats, fork_chooser: bool) {
    let name = if fork_chooser { "tcp_forked_chooser" } else { "tcp_forked_offerer" };
    let c = Arc::new(Case2::new(rng, false));
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let (tx, rx) = mpsc::channel::<()>();
    let (pc, frag) = (c.clone(), rng.next());
    let on_total = c.msgs.iter().filter(|m| m.on).count();
    let peer = std::thread::spawn(move || -> (Vec<u8>, bool) {
        let (mut k, _) = l.accept().unwrap();
        k.set_nodelay(true).unwrap();
        k.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let mut rec = vec![];
        let mut f = Rng::new(frag);
        let mut write = |k: &mut TcpStream, b: &[u8]| {
            let mut at = 0;
            let small = f.chance(1, 2);
            while at < b.len() {
                let n = if small { 1 + f.below(60) as usize } else { b.len() }.min(b.len() - at);
                if k.write_all(&b[at..at + n]).is_err() { return; }
                at += n;
                if small { std::thread::sleep(Duration::from_micros(f.below(300))); }
            }
        };
        if pc.mode == Mode::Inject { for m in pc.msgs.iter().filter(|m| m.on) { write(&mut k, &m.want.1); } }
        let mut buf = [0u8; 500];
        let mut owed = 0;
        let limit = pc.alive_for * 128;
        let t = Instant::now();
        let mut eof = false;
        // the last block of a dying peer is cut in half
        if pc.mode == Mode::Dies && on_total == 0 { return (rec, true); }
        while t.elapsed() < Duration::from_secs(20) {
            match k.read(&mut buf) {
                Ok(0) => { eof = true; break; }
                Ok(n) => {
                    rec.extend_from_slice(&buf[..n]);
                    match pc.mode {
                        Mode::Echo => write(&mut k, &buf[..n]),
                        Mode::Dies => {
                            owed += n;
                            let from = owed - n;
                            let to = owed.min(limit + 64);
                            if to > from { let b = rec[from..to].to_vec(); write(&mut k, &b); }
                            if owed >= limit + 64 { return (rec, true); }
                        }
                        Mode::Inject => {}
                    }
                }
                Err(e) => { eof = e.kind() == std::io::ErrorKind::ConnectionReset; break; }
            }
        }
        let _ = tx.send(());
        (rec, eof)
    });
    let cc = c.clone();
    let ran = Arc::new(AtomicU32::new(0));
    let ran2 = ran.clone();
    let addr2 = addr.clone();
    let info = move |k: &TcpStream, c: &Arc<Case2>| {
        ran2.fetch_add(1, Ordering::SeqCst);
        if k.peer_addr().is_ok_and(|a| a.to_string() != addr2) { c.find("fork", "the forked side is connected to a different address".into()); }
        if std::thread::current().name() != Some(&addr2) { c.find("fork", format!("thread is named {:?}", std::thread::current().name())); }
        let _ = k.set_read_timeout(Some(Duration::from_secs(25)));
    };
    // runs the local side and returns (join of the forked thread ok, local ok)
    let hold;
    let (jf, jl) = if fork_chooser {
        let (h, s, k): (_, Rec, _) = match fork_tcp(move |s: Cho, k| { info(&k, &cc); roles::tcp::chooser(&cc, s, k) }, &addr) { Ok(x) => x, Err(e) => { st.violation(name, "fork", &format!("connecting to a listening address failed: {e}"), "null".into()); return; } };
        hold = k.try_clone().unwrap();
        let c2 = c.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| roles::tcp::offerer(&c2, s, k, 0, 0)));
        (h.join().is_ok(), matches!(r, Ok(Ok(()))))
    } else {
        let (h, s, k): (_, Cho, _) = match fork_tcp(move |s: Rec, k| { info(&k, &cc); roles::tcp::offerer(&cc, s, k, 0, 0) }, &addr) { Ok(x) => x, Err(e) => { st.violation(name, "fork", &format!("connecting to a listening address failed: {e}"), "null".into()); return; } };
        hold = k.try_clone().unwrap();
        let c2 = c.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| roles::tcp::chooser(&c2, s, k)));
        (h.join().is_ok(), matches!(r, Ok(Ok(()))))
    };
    if ran.load(Ordering::SeqCst) != 1 { c.find("fork", format!("the forked closure ran {} times", ran.load(Ordering::SeqCst))); }
    let clean = c.stop.is_none() && c.mode != Mode::Dies;
    let stopped = c.gone[0].load(Ordering::SeqCst) || c.gone[1].load(Ordering::SeqCst);
    if !stopped && c.mode != Mode::Dies && !(jf && jl) { c.find("join", format!("nobody stopped, but the sides ended with forked: {jf}, local: {jl}")); }
    // a forked side that failed must be visible in its join handle
    if let Some((s, _, w)) = c.stop { if stopped && s == fork_chooser && jf != matches!(w, Stop::Cancel | Stop::Drop) { c.find("join", format!("forked side stopped by {w:?} but its join reported ok={jf}")); } }
    // close with tcp and cancel_tcp shut the connection down for everybody
    let shut = (clean || !stopped) && c.mode != Mode::Dies && (c.close_tcp.0 || c.close_tcp.1) || stopped && matches!(c.stop, Some((_, _, Stop::Cancel)));
    if shut {
        if rx.recv_timeout(Duration::from_secs(6)).is_err() { c.find("release", "the raw peer does not see the end of a connection that was closed or cancelled".into()); }
        st.add("shutdowns_seen", 1);
    } else if c.mode != Mode::Dies {
        drop(hold);
        if rx.recv_timeout(Duration::from_secs(6)).is_err() { c.find("release", "the connection is still open after both sides ended".into()); }
        st.add("releases_seen", 1);
    } else {
        drop(hold);
    }
    if let Ok((rec, _)) = peer.join() {
        let seen: Vec<D> = rec.chunks_exact(128).map(|x| x.try_into().unwrap()).collect();
        blocks(st, name, &c, &seen, rec.len() % 128, clean || (!stopped && c.mode != Mode::Dies));
    }
    judge(st, name, &c, fork_chooser);
}

fn udp_case(rng: &mut Rng, st: &mut Stats, fork_chooser: bool) {
    let name = if fork_chooser { "udp_forked_chooser" } else { "udp_forked_offerer" };
    let c = Arc::new(Case2::new(rng, true));
    let p = UdpSocket::bind("127.0.0.1:0").unwrap();
    p.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    let addr = p.local_addr().unwrap().to_string();
    let stranger = UdpSocket::bind("127.0.0.1:0").unwrap();
    // a free port for the session
    let bind = { let t = UdpSocket::bind("127.0.0.1:0").unwrap(); t.local_addr().unwrap().to_string() };
    let done = Arc::new(AtomicBool::new(false));
    let (pc, d2, bind2) = (c.clone(), done.clone(), bind.clone());
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let (ready_tx, ready_rx) = mpsc::channel::<()>();
    let peer = std::thread::spawn(move || -> Vec<Vec<u8>> {
        let mut rec = vec![];
        if go_rx.recv().is_err() { return rec; }
        for i in 0..3u8 { let _ = stranger.send_to(&[i; 99], &bind2); }
        if pc.mode == Mode::Inject {
            for m in pc.msgs.iter().filter(|m| m.on) {
                let mut b = m.want.1.to_vec();
                b.resize(m.want.0.max(128), 0xEE);
                b.truncate(m.want.0);
                let _ = p.send_to(&b, &bind2);
            }
        }
        let _ = ready_tx.send(());
        let mut buf = [0u8; 600];
        let t = Instant::now();
        let mut n_in = 0;
        loop {
            match p.recv_from(&mut buf) {
                Ok((n, from)) => {
                    rec.push(buf[..n].to_vec());
                    let echo = match pc.mode { Mode::Echo => true, Mode::Dies => n_in < pc.alive_for, _ => false };
                    n_in += 1;
                    if echo { let _ = p.send_to(&buf[..n], from); }
                }
                Err(_) => if d2.load(Ordering::SeqCst) || t.elapsed() > Duration::from_secs(25) { return rec; }
            }
        }
    });
    let cc = c.clone();
    let ran = Arc::new(AtomicU32::new(0));
    let ran2 = ran.clone();
    let (addr2, bind3) = (addr.clone(), bind.clone());
    let (gate_tx, gate_rx) = mpsc::channel::<()>();
    let dies = c.mode == Mode::Dies;
    let info = move |k: &UdpSocket, c: &Arc<Case2>| {
        ran2.fetch_add(1, Ordering::SeqCst);
        if k.peer_addr().is_ok_and(|a| a.to_string() != addr2) { c.find("fork", "the forked side is connected to a different address".into()); }
        if k.local_addr().is_ok_and(|a| a.to_string() != bind3) { c.find("fork", "the forked side is bound to a different address".into()); }
        if std::thread::current().name() != Some(&bind3) { c.find("fork", format!("thread is named {:?}", std::thread::current().name())); }
        let _ = k.set_read_timeout(Some(if dies { Duration::from_millis(150) } else { Duration::from_secs(20) }));
        let _ = gate_rx.recv();
    };
    let open = |k: &UdpSocket| {
        let _ = k.set_read_timeout(Some(if dies { Duration::from_millis(150) } else { Duration::from_secs(20) }));
        let _ = go_tx.send(());
        let _ = ready_rx.recv_timeout(Duration::from_secs(5));
        let _ = gate_tx.send(());
    };
    let (jf, jl) = if fork_chooser {
        let (h, s, k): (_, Rec, _) = match fork_udp(move |s: Cho, k| { info(&k, &cc); roles::udp::chooser(&cc, s, k) }, &bind, &addr) { Ok(x) => x, Err(_) => { st.add("ports_taken", 1); return; } };
        open(&k);
        let c2 = c.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| roles::udp::offerer(&c2, s, k, 0, 0)));
        (h.join().is_ok(), matches!(r, Ok(Ok(()))))
    } else {
        let (h, s, k): (_, Cho, _) = match fork_udp(move |s: Rec, k| { info(&k, &cc); roles::udp::offerer(&cc, s, k, 0, 0) }, &bind, &addr) { Ok(x) => x, Err(_) => { st.add("ports_taken", 1); return; } };
        open(&k);
        let c2 = c.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| roles::udp::chooser(&c2, s, k)));
        (h.join().is_ok(), matches!(r, Ok(Ok(()))))
    };
    if ran.load(Ordering::SeqCst) != 1 { c.find("fork", format!("the forked closure ran {} times", ran.load(Ordering::SeqCst))); }
    let stopped = c.gone[0].load(Ordering::SeqCst) || c.gone[1].load(Ordering::SeqCst);
    if !stopped && c.mode != Mode::Dies && !(jf && jl) { c.find("join", format!("nobody stopped, but the sides ended with forked: {jf}, local: {jl}")); }
    if let Some((s, _, w)) = c.stop { if stopped && s == fork_chooser && jf != matches!(w, Stop::Cancel | Stop::Drop) { c.find("join", format!("forked side stopped by {w:?} but its join reported ok={jf}")); } }
    // both sides are gone: the local port is free again
    match UdpSocket::bind(&bind) { Ok(_) => st.add("releases_seen", 1), Err(e) => if local_udp_port_open(&bind) { c.find("release", format!("the socket is still bound after both sides ended: {e}")) } else { st.add("ports_taken", 1) } }
    done.store(true, Ordering::SeqCst);
    if let Ok(rec) = peer.join() {
        let seen: Vec<D> = rec.iter().filter(|x| x.len() == 128).map(|x| x[..].try_into().unwrap()).collect();
        let rest = rec.iter().filter(|x| x.len() != 128).count();
        blocks(st, name, &c, &seen, rest, !stopped && c.mode != Mode::Dies);
    }
    judge(st, name, &c, fork_chooser);
}
/// is the port held by a socket of this process that no other running case could own?
fn local_udp_port_open(bind: &str) -> bool {
    let port: u16 = bind.rsplit(':').next().unwrap().parse().unwrap();
    let hex = format!(":{port:04X} ");
    let find = || std::fs::read_to_string("/proc/net/udp").unwrap_or_default().lines().any(|l| l.split_whitespace().nth(1).is_some_and(|a| format!("{a} ").ends_with(&hex)));
    // a port taken over by somebody else is released soon
    for _ in 0..40 { if !find() { return false; } std::thread::sleep(Duration::from_millis(50)); }
    true
}

/// nobody listens: no session is created and the closure never runs
fn no_server(rng: &mut Rng, st: &mut Stats) {
    let addr = { let l = TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let ran = Arc::new(AtomicU32::new(0));
    let r2 = ran.clone();
    let r = fork_tcp(move |s: End, k| { r2.fetch_add(1, Ordering::SeqCst); close_tcp(s, k, true) }, &addr);
    if r.is_ok() { if TcpListener::bind(&addr).is_ok() { st.violation("no_server", "fork", "connecting to an address nobody listens on succeeded", "null".into()); } return; }
    std::thread::sleep(Duration::from_millis(1));
    if ran.load(Ordering::SeqCst) != 0 { st.violation("no_server", "fork", "the closure ran although no connection could be made", "null".into()); }
    let bad = ["256.0.0.1:1", "127.0.0.1:99999", "not an address", ""];
    let a = *rng.pick(&bad);
    if fork_tcp(move |s: End, k| close_tcp(s, k, true), a).is_ok() { st.violation("no_server", "fork", "an ill-formed address was accepted", "null".into()); }
    if fork_udp(move |s: End, _k| close(s), a, "127.0.0.1:9").is_ok() { st.violation("no_server", "fork", "an ill-formed address was accepted", "null".into()); }
    let taken = UdpSocket::bind("127.0.0.1:0").unwrap();
    if fork_udp(move |s: End, _k| close(s), &taken.local_addr().unwrap().to_string(), "127.0.0.1:9").is_ok() { st.violation("no_server", "fork", "a port in use was bound again", "null".into()); }
    st.inter.insert(hash_str(a));
    st.add("refused_forks", 4);
}

/// cancellation always succeeds, whatever state the connection is in
fn cancel_states(rng: &mut Rng, st: &mut Stats) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let k = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (mut p, _) = l.accept().unwrap();
    let k2 = k.try_clone().unwrap();
    let (s, dual) = <Recv<u64, End> as Session>::new();
    let w = rng.below(6);
    match w {
        0 => {}
        1 => { let _ = p.shutdown(std::net::Shutdown::Both); drop(p.try_clone()); }
        // the peer resets the connection
        2 => { let _ = (&k).write_all(&[1; 64]); let _ = p.read(&mut [0u8; 1]); drop(p); p = TcpStream::connect(l.local_addr().unwrap()).unwrap(); std::thread::sleep(Duration::from_millis(3)); let _ = (&k).write_all(&[1; 8]); std::thread::sleep(Duration::from_millis(3)); let _ = (&k).write_all(&[1; 8]); }
        // the other half has already been cancelled or closed
        3 => { let _ = guarded(|| cancel_tcp((), k2.try_clone().unwrap())); }
        4 => { let _ = guarded(|| cancel_tcp((), k2.try_clone().unwrap())); let _ = p.shutdown(std::net::Shutdown::Both); std::thread::sleep(Duration::from_millis(2)); }
        _ => { let _ = p.write_all(&[3; 200]); }
    }
    if let Err(e) = guarded(|| cancel_tcp(s, k)) { st.violation("cancel_states", "cancel", &format!("cancelling panicked in connection state {w}: {e}"), "null".into()); }
    if matches!(guarded(|| mpstthree::binary::send::send_canceled(1u64, dual).is_ok()), Ok(true)) { st.violation("cancel_states", "cancel", "the session was not released", "null".into()); }
    drop(k2);
    let _ = p;
    st.inter.insert(mix(w));
    st.add("cancelled_connections", 1);
}

fn main() {
    case_loop(vec![
        Case { name: "tcp_forked_offerer", f: |r, s| tcp_case(r, s, false) },
        Case { name: "tcp_forked_chooser", f: |r, s| tcp_case(r, s, true) },
        Case { name: "udp_forked_offerer", f: |r, s| udp_case(r, s, false) },
        Case { name: "udp_forked_chooser", f: |r, s| udp_case(r, s, true) },
        Case { name: "tcp_forked_offerer", f: |r, s| tcp_case(r, s, false) },
        Case { name: "tcp_forked_chooser", f: |r, s| tcp_case(r, s, true) },
        Case { name: "no_server", f: no_server },
        Case { name: "cancel_states", f: cancel_states },
    ], 2);
}
