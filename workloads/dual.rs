// Structure strings, duality and connectivity of sessions, roles and names. The terms and what they must print come
// from the generator; this part walks the objects.
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use mpstthree::name::Name;
use mpstthree::role::Role;
use std::any::TypeId;
use std::collections::HashMap;
use std::time::{Duration, Instant};
use vmon::*;

pub struct Bad { pub name: &'static str, pub out: Vec<(String, String)>, pub n: u64 }
impl Bad {
    fn add(&mut self, class: &str, m: String) { if self.out.len() < 6 { self.out.push((class.into(), m)); } }
    fn eq(&mut self, what: &str, got: String, exp: &str) {
        self.n += 1;
        if got != exp { self.add("structure", format!("{what} is {got:?}, its type is {exp:?}")); }
    }
    fn must(&mut self, class: &str, c: bool, m: &str) { self.n += 1; if !c { self.add(class, m.to_string()); } }
}

/// Where a walk stops, and how.
#[derive(Clone, Copy, Debug)]
pub struct Stop { at: i32, drop_self: bool }

fn clocks() -> HashMap<char, Instant> { ('a'..='z').map(|c| (c, Instant::now())).collect() }

/// Walks a session and its dual on one thread: every channel holds one message.
pub trait Walk: Session {
    /// the "head<tail>" of this session and of every continuation
    fn strings(out: &mut Vec<String>) { out.push(format!("{}<{}>", Self::head_str(), Self::tail_str())); Self::more(out) }
    fn more(_out: &mut Vec<String>) {}
    fn walk(self, d: Self::Dual, stop: Stop, rng: &mut Rng, b: &mut Bad);
}

fn objs<S: Session>(s: &S, d: &S::Dual, b: &mut Bad) where S::Dual: Session {
    b.eq("self_head_str", s.self_head_str(), &S::head_str());
    b.eq("self_tail_str", s.self_tail_str(), &S::tail_str());
    b.eq("self_head_str of the dual", d.self_head_str(), &<S::Dual as Session>::head_str());
    b.eq("self_tail_str of the dual", d.self_tail_str(), &<S::Dual as Session>::tail_str());
}

impl Walk for End {
    fn walk(self, d: End, stop: Stop, rng: &mut Rng, b: &mut Bad) {
        objs(&self, &d, b);
        if stop.at == 0 {
            let (gone, stay) = if stop.drop_self { (self, d) } else { (d, self) };
            drop(gone);
            b.must("connectivity", mpstthree::binary::close::close(stay).is_err(), "close succeeded although the other end was dropped");
        } else {
            if rng.chance(1, 2) {
                let h = std::thread::spawn(move || mpstthree::binary::close::close(d).is_ok());
                let me = mpstthree::binary::close::close(self).is_ok();
                b.must("connectivity", me, "close failed although both ends close");
                b.must("connectivity", h.join().unwrap_or(false), "close failed although both ends close");
            } else {
                let (one, two) = if rng.chance(1, 2) { (self, d) } else { (d, self) };
                mpstthree::binary::cancel::cancel(one);
                b.must("connectivity", mpstthree::binary::close::close(two).is_err(), "close succeeded although the other end was cancelled");
            }
        }
    }
}

/// moves a value from the sending end to the receiving end, or drops one of them
fn hop<T: Payload + std::marker::Send, S: Session, R: 'static>(tx: Send<T, S>, rx: Recv<T, S::Dual>, rng: &mut Rng, b: &mut Bad, stop_tx: Option<bool>, k: impl FnOnce(S, S::Dual, &mut Rng, &mut Bad) -> R) -> Option<R>
where S::Dual: Session<Dual = S> {
    match stop_tx {
        Some(true) => { drop(tx); b.must("connectivity", mpstthree::binary::recv::recv(rx).is_err(), "receive succeeded although the sending end was dropped"); None }
        Some(false) => {
            drop(rx);
            let (_, there) = S::new();
            b.must("connectivity", tx.channel.try_send((T::make(1), there)).is_err(), "the sending end does not see that the receiving end was dropped");
            None
        }
        None => {
            let u = rng.next();
            let v = T::make(u);
            let f = v.fp();
            let s = mpstthree::binary::send::send(v, tx);
            match mpstthree::binary::recv::recv(rx) {
                Err(e) => { b.add("connectivity", format!("receive failed although a value was sent: {e}")); None }
                Ok((v, d)) => { b.must("connectivity", v.fp() == f, "another value arrived"); Some(k(s, d, rng, b)) }
            }
        }
    }
}

impl<T: Payload + std::marker::Send, S: Walk> Walk for Send<T, S> where S::Dual: Session<Dual = S> {
    fn more(out: &mut Vec<String>) { S::strings(out) }
    fn walk(self, d: Self::Dual, stop: Stop, rng: &mut Rng, b: &mut Bad) {
        objs(&self, &d, b);
        let st = if stop.at == 0 { Some(stop.drop_self) } else { None };
        hop::<T, S, ()>(self, d, rng, b, st, |s, d, rng, b| s.walk(d, Stop { at: stop.at - 1, ..stop }, rng, b));
    }
}
impl<T: Payload + std::marker::Send, S: Walk> Walk for Recv<T, S> where S::Dual: Session<Dual = S> {
    fn more(out: &mut Vec<String>) { S::strings(out) }
    fn walk(self, d: Self::Dual, stop: Stop, rng: &mut Rng, b: &mut Bad) {
        objs(&self, &d, b);
        let st = if stop.at == 0 { Some(!stop.drop_self) } else { None };
        hop::<T, S::Dual, ()>(d, self, rng, b, st, |d, s, rng, b| s.walk(d, Stop { at: stop.at - 1, ..stop }, rng, b));
    }
}

fn window(c: char, l: i128, li: bool, r: i128, ri: bool) -> Option<String> {
    let (lo, hi) = (if li { "<=" } else { "<" }, if ri { "<=" } else { "<" });
    match (l < 0, r < 0) {
        (true, true) => None,
        (true, false) => Some(format!("{c} {hi} {r}")),
        (false, true) => Some(format!("{l} {lo} {c}")),
        _ => Some(format!("{l} {lo} {c} {hi} {r}")),
    }
}

macro_rules! timed_objs {
    ($b:ident, $x:expr, $who:literal, $c:expr, $l:expr, $li:expr, $r:expr, $ri:expr, $re:expr) => {
        $b.must("window", $x.clock == $c && $x.start == $l && $x.include_start == $li && $x.end == $r && $x.include_end == $ri && $x.reset == $re,
            &format!("the window stored in {} is not the one of its type: clock {} from {} ({}) to {} ({}) reset {:?}", $who, $x.clock, $x.start, $x.include_start, $x.end, $x.include_end, $x.reset));
        if let Some(w) = window($c, $l, $li, $r, $ri) { $b.eq(concat!("constraint of ", $who), $x.constraint(), &w); }
    };
}

impl<T: Payload + std::marker::Send, const C: char, const L: i128, const LI: bool, const HI: i128, const RI: bool, const RE: char, S: Walk> Walk for SendTimed<T, C, L, LI, HI, RI, RE, S> where S::Dual: Session<Dual = S> {
    fn more(out: &mut Vec<String>) { S::strings(out) }
    fn walk(self, d: Self::Dual, stop: Stop, rng: &mut Rng, b: &mut Bad) {
        objs(&self, &d, b);
        timed_objs!(b, self, "a sending end", C, L, LI, HI, RI, RE);
        timed_objs!(b, d, "a receiving end", C, L, LI, HI, RI, RE);
        let u = rng.next();
        let v = T::make(u);
        let f = v.fp();
        let (here, there) = S::new();
        if stop.at == 0 {
            if stop.drop_self { drop(self); b.must("connectivity", matches!(d.channel.try_recv(), Err(e) if e.is_disconnected()), "a timed receive does not see that the sending end was dropped"); }
            else { drop(d); b.must("connectivity", self.channel.try_send((v, there)).is_err(), "a timed send does not see that the receiving end was dropped"); }
            return;
        }
        b.must("connectivity", self.channel.try_send((v, there)).is_ok(), "a timed sending end is not connected");
        match d.channel.try_recv() {
            Err(e) => b.add("connectivity", format!("timed ends are not connected: {e}")),
            Ok((v, d)) => { b.must("connectivity", v.fp() == f, "another value arrived"); here.walk(d, Stop { at: stop.at - 1, ..stop }, rng, b) }
        }
    }
}
impl<T: Payload + std::marker::Send, const C: char, const L: i128, const LI: bool, const HI: i128, const RI: bool, const RE: char, S: Walk> Walk for RecvTimed<T, C, L, LI, HI, RI, RE, S> where S::Dual: Session<Dual = S> {
    fn more(out: &mut Vec<String>) { S::strings(out) }
    fn walk(self, d: Self::Dual, stop: Stop, rng: &mut Rng, b: &mut Bad) {
        objs(&self, &d, b);
        timed_objs!(b, self, "a receiving end", C, L, LI, HI, RI, RE);
        timed_objs!(b, d, "a sending end", C, L, LI, HI, RI, RE);
        let u = rng.next();
        let v = T::make(u);
        let f = v.fp();
        let (there, here) = S::new();
        if stop.at == 0 {
            if stop.drop_self { drop(self); b.must("connectivity", d.channel.try_send((v, there)).is_err(), "a timed send does not see that the receiving end was dropped"); }
            else { drop(d); b.must("connectivity", matches!(self.channel.try_recv(), Err(e) if e.is_disconnected()), "a timed receive does not see that the sending end was dropped"); }
            return;
        }
        b.must("connectivity", d.channel.try_send((v, there)).is_ok(), "a timed sending end is not connected");
        match self.channel.try_recv() {
            Err(e) => b.add("connectivity", format!("timed ends are not connected: {e}")),
            Ok((v, s)) => { b.must("connectivity", v.fp() == f, "another value arrived"); s.walk(here, Stop { at: stop.at - 1, ..stop }, rng, b) }
        }
    }
}

/// Two connected objects holding a channel of unit signals in both directions.
pub trait Wire { fn tx(&self) -> &crossbeam_channel::Sender<()>; fn rx(&self) -> &crossbeam_channel::Receiver<()>; }
#[macro_export]
macro_rules! wire { ($($t:ty),* $(,)?) => { $(impl Wire for $t { fn tx(&self) -> &crossbeam_channel::Sender<()> { &self.sender } fn rx(&self) -> &crossbeam_channel::Receiver<()> { &self.receiver } })* } }

pub fn wired<A: Wire, B: Wire>(a: A, d: B, rng: &mut Rng, b: &mut Bad) {
    let w = Duration::from_millis(0);
    b.must("connectivity", a.tx().try_send(()).is_ok() && d.rx().recv_timeout(w).is_ok(), "the dual does not receive what was sent to it");
    b.must("connectivity", a.rx().try_recv().is_err_and(|e| e.is_empty()), "an object received its own signal");
    b.must("connectivity", d.tx().try_send(()).is_ok() && a.rx().recv_timeout(w).is_ok(), "a signal of the dual does not arrive");
    if rng.chance(1, 2) {
        drop(a);
        b.must("connectivity", d.tx().try_send(()).is_err(), "the drop of one object is not seen by its dual's sender");
        b.must("connectivity", d.rx().try_recv().is_err_and(|e| e.is_disconnected()), "the drop of one object is not seen by its dual's receiver");
    } else {
        drop(d);
        b.must("connectivity", a.tx().try_send(()).is_err(), "the drop of the dual is not seen by the sender");
        b.must("connectivity", a.rx().try_recv().is_err_and(|e| e.is_disconnected()), "the drop of the dual is not seen by the receiver");
    }
}

/// Roles: walks the continuations of an object.
pub trait RWalk: Role {
    fn strings(out: &mut Vec<String>) { out.push(format!("{}<{}>", Self::head_str(), Self::tail_str())); Self::more(out) }
    fn more(_out: &mut Vec<String>) {}
    /// the "head<tail>" of this object and of every continuation object
    fn objects(&self, out: &mut Vec<String>) { out.push(format!("{}<{}>", self.self_head_str(), self.self_tail_str())); self.conts(out) }
    fn conts(&self, _out: &mut Vec<String>) {}
    fn leaf(self, _d: Self::Dual, _rng: &mut Rng, _b: &mut Bad) {}
}
#[macro_export]
macro_rules! leaf_role { ($($t:ty),* $(,)?) => { $(
    wire!($t);
    impl RWalk for $t { fn leaf(self, d: Self, rng: &mut Rng, b: &mut Bad) { wired(self, d, rng, b) } }
)* } }
#[macro_export]
macro_rules! normal_role { ($($t:ident),* $(,)?; $u:tt) => { $( normal_role!(@ $t $u); )* }; (@ $t:ident [$($u:ident)*]) => {
    impl<R: RWalk> RWalk for $t<R> where R::Dual: Role<Dual = R> {
        fn more(out: &mut Vec<String>) { R::strings(out) }
        fn conts(&self, out: &mut Vec<String>) { self.continuation()$(.$u())*.objects(out) }
    }
} }
#[macro_export]
macro_rules! broad_role { ($($t:ident),* $(,)?; $u:tt) => { $( broad_role!(@ $t $u); )* }; (@ $t:ident [$($u:ident)*]) => {
    impl<R1: RWalk, R2: RWalk> RWalk for $t<R1, R2> where R1::Dual: Role<Dual = R1>, R2::Dual: Role<Dual = R2> {
        fn more(out: &mut Vec<String>) { R1::strings(out); R2::strings(out) }
        fn conts(&self, out: &mut Vec<String>) { self.continuation_left()$(.$u())*.objects(out); self.continuation_right()$(.$u())*.objects(out) }
    }
} }

fn lists(b: &mut Bad, what: &str, got: Vec<String>, exp: &[&str]) {
    b.n += exp.len() as u64;
    if got.len() != exp.len() { b.add("structure", format!("{what}: {} parts instead of {}", got.len(), exp.len())); return; }
    for (g, e) in got.iter().zip(exp) { if g != e { b.add("structure", format!("{what} is {g:?}, its type is {e:?}")); break; } }
}

/// T against the strings of T and of its dual; ED is the dual computed by the generator.
pub fn chk_session<T: Walk + 'static, ED: Walk + 'static>(exp: &[&str], dexp: &[&str], rng: &mut Rng, b: &mut Bad)
where T: Session<Dual = ED>, ED: Session<Dual = T> {
    b.must("dual", TypeId::of::<T::Dual>() == TypeId::of::<ED>() && TypeId::of::<<T::Dual as Session>::Dual>() == TypeId::of::<T>(), "the dual, or its dual, is another type");
    let mut o = vec![]; T::strings(&mut o); lists(b, "the printed type", o, exp);
    let mut o = vec![]; ED::strings(&mut o); lists(b, "the printed dual type", o, dexp);
    for _ in 0..3 {
        let n = exp.len() as u64;
        let stop = Stop { at: if rng.chance(1, 4) { n as i32 + 1 } else { rng.below(n) as i32 }, drop_self: rng.chance(1, 2) };
        if rng.chance(1, 2) { let (s, d) = T::new(); s.walk(d, stop, rng, b); } else { let (d, s) = ED::new(); d.walk(s, stop, rng, b); }
    }
}

pub fn chk_role<T: RWalk + 'static, ED: RWalk + 'static>(exp: &[&str], dexp: &[&str], rng: &mut Rng, b: &mut Bad)
where T: Role<Dual = ED>, ED: Role<Dual = T> {
    b.must("dual", TypeId::of::<T::Dual>() == TypeId::of::<ED>() && TypeId::of::<<T::Dual as Role>::Dual>() == TypeId::of::<T>(), "the dual, or its dual, is another type");
    let mut o = vec![]; T::strings(&mut o); lists(b, "the printed role", o, exp);
    let mut o = vec![]; ED::strings(&mut o); lists(b, "the printed dual role", o, dexp);
    let (s, d) = if rng.chance(1, 2) { T::new() } else { let (d, s) = ED::new(); (s, d) };
    let mut o = vec![]; s.objects(&mut o); lists(b, "the printed role object", o, exp);
    let mut o = vec![]; d.objects(&mut o); lists(b, "the printed dual role object", o, dexp);
    s.leaf(d, rng, b);
}

pub fn chk_name<N: Name<Dual = N> + Wire + 'static>(head: &str, rng: &mut Rng, b: &mut Bad) {
    b.eq("head of a name", N::head_str(), head);
    b.eq("tail of a name", N::tail_str(), "");
    let (s, d) = N::new();
    for x in [&s, &d] {
        b.eq("head of a name object", x.self_head_str(), head);
        b.eq("tail of a name object", x.self_tail_str(), "");
    }
    wired(s, d, rng, b);
}

pub fn chk_mesh<M: Session + 'static, ED: Session + 'static>(head: &str, tail: &str, dhead: &str, dtail: &str, b: &mut Bad) -> (M, ED)
where M: Session<Dual = ED>, ED: Session<Dual = M> {
    b.must("dual", TypeId::of::<M::Dual>() == TypeId::of::<ED>(), "the dual of a multiparty channel is another type");
    b.eq("head of a multiparty channel", M::head_str(), head);
    b.eq("tail of a multiparty channel", M::tail_str(), tail);
    b.eq("head of the dual multiparty channel", ED::head_str(), dhead);
    b.eq("tail of the dual multiparty channel", ED::tail_str(), dtail);
    let (s, d) = M::new();
    b.eq("head of a multiparty channel object", s.self_head_str(), head);
    b.eq("tail of a multiparty channel object", s.self_tail_str(), tail);
    b.eq("head of the dual object", d.self_head_str(), dhead);
    b.eq("tail of the dual object", d.self_tail_str(), dtail);
    (s, d)
}

pub fn stop_at(n: u64, rng: &mut Rng) -> Stop { Stop { at: if rng.chance(1, 3) { n as i32 + 1 } else { rng.below(n) as i32 }, drop_self: rng.chance(1, 2) } }

pub fn report(mut b: Bad, st: &mut Stats, rng: &mut Rng) {
    st.add("facts_compared", b.n);
    st.inter.insert(mix(hash_str(b.name) ^ (rng.next() & 0xff)));
    for (c, m) in b.out.drain(..) { st.violation(b.name, &c, &m, "null".into()); }
}

use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a::RoleA, a_dual::RoleADual, a_to_all::RoleAtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC, b::RoleB, b_dual::RoleBDual, b_to_all::RoleBtoAll, broadcast::RoleBroadcast, c::RoleC, c_dual::RoleCDual, c_to_all::RoleCtoAll, end::RoleEnd};
leaf_role!(RoleEnd, RoleBroadcast);
wire!(NameA, NameB, NameC);
normal_role!(RoleA, RoleADual, RoleB, RoleBDual, RoleC, RoleCDual; []);
broad_role!(RoleAtoAll, RoleAlltoA, RoleBtoAll, RoleAlltoB, RoleCtoAll, RoleAlltoC; []);
