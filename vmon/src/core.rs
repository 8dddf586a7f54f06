//! Event log, participant context, schedule perturbation and fault injection.
use crate::payload::{mix, Payload};
use std::cell::Cell;
use std::collections::HashMap;
use std::error::Error;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub static SEQ: AtomicU64 = AtomicU64::new(1);
pub fn next_seq() -> u64 {
    SEQ.fetch_add(1, Ordering::SeqCst)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(mix(s ^ 0xABCDEF)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Start,
    CallSend,
    RetSend,
    CallRecv,
    RetRecv,
    CallChoose,
    RetChoose,
    CallOffer,
    Branch,
    OfferErr,
    CallClose,
    RetClose,
    Fault,
    Exit,
    Note,
}
/// One event. `op` = node << 8 | index; `arg` = fingerprint or branch; `ok` = outcome.
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub seq: u64,
    pub k: K,
    pub sess: u8,
    pub op: u32,
    pub arg: u64,
    pub ok: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    CancelErr,
    CancelOk,
    DropErr,
    DropOk,
    RetErr,
    Panic,
    /// an operation performed outside of its time window, which must fail
    Timeout,
    /// does nothing for a long time (others may time out), then ends
    Stall,
}
pub const FAULT_KINDS_TIMED: [FaultKind; 10] = [
    FaultKind::CancelErr,
    FaultKind::CancelOk,
    FaultKind::DropErr,
    FaultKind::DropOk,
    FaultKind::RetErr,
    FaultKind::Panic,
    FaultKind::Timeout,
    FaultKind::Timeout,
    FaultKind::Timeout,
    FaultKind::Timeout,
];
pub const FAULT_KINDS_STALL: [FaultKind; 4] = [FaultKind::Stall, FaultKind::Stall, FaultKind::DropErr, FaultKind::Panic];
pub const FAULT_KINDS: [FaultKind; 6] = [
    FaultKind::CancelErr,
    FaultKind::CancelOk,
    FaultKind::DropErr,
    FaultKind::DropOk,
    FaultKind::RetErr,
    FaultKind::Panic,
];

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub thread: usize,
    pub opno: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Delay {
    None,
    Yield,
    Spin,
    Sleep,
    SlowRole(usize),
    FastRole(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gate {
    None,
    /// the threads of the mask only receive once the matching send completed
    LateRecv(u64),
    /// senders wait (bounded) until the receiver is about to receive
    EarlyRecv,
    /// senders to a thread that is going to fail wait (bounded) for its exit
    AfterFault,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub delay: Delay,
    pub gate: Gate,
    pub faults: Vec<Fault>,
    pub max_choices: u32,
    /// the branch that leads to the end is avoided as long as there are choices left
    pub persist: bool,
    /// (thread, operation, ms): a participant that does nothing for a long time in front of an operation
    pub pause: Option<(usize, u32, u64)>,
    /// the recursion goes on until a participant uses that many bytes of its stack
    pub deep: Option<usize>,
}

pub const MAXR: usize = 16;

/// Shared state of one execution (one set of concurrently running participants).
pub struct Run {
    pub id: u64,
    pub name: &'static str,
    pub plan: Plan,
    pub nthreads: usize,
    pub logs: Vec<Mutex<Vec<Ev>>>,
    pub errs: Vec<Mutex<String>>,
    pub choices: AtomicU32,
    pub exited: Vec<AtomicBool>,
    pub unwinding: AtomicBool,
    pub solo_matched: AtomicU32,
    /// violations noticed by online monitors inside a participant
    pub notes: Mutex<Vec<(&'static str, String)>>,
    /// number of operations each thread attempted
    pub opnos: Vec<AtomicU32>,
    /// deep executions: number of selections each thread made or followed, bytes of stack it used
    pub turns: Vec<AtomicU32>,
    pub depths: Vec<AtomicUsize>,
    pub deep_over: AtomicBool,
    // per session (2) x from x to counters of completed sends / called receives
    sent: Vec<AtomicU32>,
    rcvd: Vec<AtomicU32>,
    gate_m: Mutex<()>,
    gate_c: Condvar,
}

fn ix(sess: u8, a: usize, b: usize) -> usize {
    (sess as usize) * MAXR * MAXR + a * MAXR + b
}

impl Run {
    pub fn new(id: u64, name: &'static str, nthreads: usize, plan: Plan) -> Arc<Run> {
        Arc::new(Run {
            id,
            name,
            plan,
            nthreads,
            logs: (0..nthreads).map(|_| Mutex::new(Vec::new())).collect(),
            errs: (0..nthreads).map(|_| Mutex::new(String::new())).collect(),
            choices: AtomicU32::new(0),
            exited: (0..nthreads).map(|_| AtomicBool::new(false)).collect(),
            unwinding: AtomicBool::new(false),
            solo_matched: AtomicU32::new(0),
            notes: Mutex::new(Vec::new()),
            opnos: (0..nthreads).map(|_| AtomicU32::new(0)).collect(),
            turns: (0..nthreads).map(|_| AtomicU32::new(0)).collect(),
            depths: (0..nthreads).map(|_| AtomicUsize::new(0)).collect(),
            deep_over: AtomicBool::new(false),
            sent: (0..2 * MAXR * MAXR).map(|_| AtomicU32::new(0)).collect(),
            rcvd: (0..2 * MAXR * MAXR).map(|_| AtomicU32::new(0)).collect(),
            gate_m: Mutex::new(()),
            gate_c: Condvar::new(),
        })
    }
    fn gated(&self) -> bool {
        matches!(self.plan.gate, Gate::LateRecv(_))
    }
    fn wake(&self) {
        if self.gated() {
            let _g = self.gate_m.lock().unwrap();
            self.gate_c.notify_all();
        }
    }
    pub fn any_exited(&self) -> bool {
        self.exited.iter().any(|x| x.load(Ordering::SeqCst))
    }
}

/// Context of one participant (one thread).
pub struct Cx {
    pub run: Arc<Run>,
    pub thread: usize,
    base: usize,
    opno: Cell<u32>,
    open_offer: Cell<u64>,
    offers: Cell<u64>,
    rng: Cell<u64>,
    uid: Cell<u64>,
    peer: Cell<(u8, usize, usize)>,
    op: Cell<u32>,
    sess: Cell<u8>,
    clk: std::cell::RefCell<(HashMap<char, Instant>, Option<Instant>)>,
    solo: std::cell::RefCell<HashMap<u32, u64>>,
}

struct ExitGuard<'a>(&'a Cx, Cell<bool>);
impl<'a> Drop for ExitGuard<'a> {
    fn drop(&mut self) {
        let p = std::thread::panicking();
        self.0.ev(K::Exit, 0, if p { 2 } else { self.1.get() as u64 }, !p && self.1.get());
        self.0.run.exited[self.0.thread].store(true, Ordering::SeqCst);
        self.0.run.unwinding.store(true, Ordering::SeqCst);
        self.0.run.wake();
    }
}

/// an address of the stack of the caller
#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

/// Runs the body of one participant. Exit is logged after the body released its sessions.
pub fn run_role(
    run: &Arc<Run>,
    thread: usize,
    body: impl FnOnce(&Cx) -> Result<(), Box<dyn Error>>,
) -> Result<(), Box<dyn Error>> {
    let cx = Cx {
        run: run.clone(),
        thread,
        base: here(),
        opno: Cell::new(0),
        open_offer: Cell::new(0),
        offers: Cell::new(0),
        rng: Cell::new(mix(run.plan.seed ^ ((thread as u64 + 1) << 40))),
        uid: Cell::new(0),
        peer: Cell::new((0, 0, 0)),
        op: Cell::new(0),
        sess: Cell::new(0),
        clk: Default::default(),
        solo: Default::default(),
    };
    cx.ev(K::Start, 0, 0, true);
    let g = ExitGuard(&cx, Cell::new(false));
    let r = body(&cx);
    if let Err(e) = &r {
        *run.errs[thread].lock().unwrap() = e.to_string();
    }
    g.1.set(r.is_ok());
    drop(g);
    r
}

pub enum F {
    Go,
    Cancel(bool),
    Drop(bool),
    Ret,
    Panic,
    Timeout,
    Stall,
}

#[macro_export]
macro_rules! fault_timed {
    ($cx:expr, $s:ident, $cancel:expr, $op:expr) => {
        match $cx.fault_point() {
            $crate::F::Go => {}
            $crate::F::Cancel(ok) => { $cancel; return $cx.fault_ret(ok); }
            $crate::F::Drop(ok) => { std::mem::drop($s); return $cx.fault_ret(ok); }
            $crate::F::Ret => return $cx.fault_ret(false),
            $crate::F::Panic => $cx.panic_now(),
            $crate::F::Stall => { $cx.stall(); return $cx.fault_ret(false); }
            $crate::F::Timeout => { if $op { $cx.finding("accepted", "an operation outside of its time window succeeded"); } return $cx.fault_ret(false); }
        }
    };
}

#[macro_export]
macro_rules! fault {
    ($cx:expr, $s:ident, $cancel:expr) => {
        match $cx.fault_point() {
            $crate::F::Go => {}
            $crate::F::Cancel(ok) => { $cancel; return $cx.fault_ret(ok); }
            $crate::F::Drop(ok) => { std::mem::drop($s); return $cx.fault_ret(ok); }
            $crate::F::Ret => return $cx.fault_ret(false),
            $crate::F::Panic => $cx.panic_now(),
            $crate::F::Timeout => return $cx.fault_ret(false),
            $crate::F::Stall => { $cx.stall(); return $cx.fault_ret(false); }
        }
    };
}

type E = Box<dyn Error>;

#[derive(Debug)]
struct Blank;
impl std::fmt::Display for Blank {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl Error for Blank {}

/// An error of a participant of some kind or other: which one it is does not matter.
pub fn some_error(r: u64) -> E {
    use std::io::ErrorKind::*;
    let kinds = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe,
        AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other];
    match r % 12 {
        0..=3 => Box::new(std::io::Error::from(kinds[(r >> 8) as usize % kinds.len()])),
        4 => Box::new(std::io::Error::new(kinds[(r >> 8) as usize % kinds.len()], "injected participant failure")),
        5 => Box::new(std::sync::mpsc::RecvError),
        6 => Box::new(std::sync::mpsc::RecvTimeoutError::Timeout),
        7 => Box::new(std::fmt::Error),
        8 => "x".parse::<u8>().unwrap_err().into(),
        9 => Box::new(Blank),
        10 => "".into(),
        _ => "injected participant failure".into(),
    }
}

impl Cx {
    pub fn ev(&self, k: K, op: u32, arg: u64, ok: bool) {
        let mut l = self.run.logs[self.thread].lock().unwrap();
        l.push(Ev { seq: next_seq(), k, sess: self.sess.get(), op, arg, ok });
    }
    pub fn rnd(&self) -> u64 {
        let x = self.rng.get().wrapping_add(0x9E3779B97F4A7C15);
        self.rng.set(x);
        mix(x)
    }
    pub fn delay(&self) {
        let r = self.rnd();
        match self.run.plan.delay {
            Delay::None => {}
            Delay::Yield => {
                for _ in 0..(r % 4) { std::thread::yield_now(); }
            }
            Delay::Spin => {
                for _ in 0..(r % 400) { std::hint::spin_loop(); }
            }
            Delay::Sleep => {
                if r % 6 == 0 { std::thread::sleep(Duration::from_micros((r >> 8) % 200)); }
            }
            Delay::SlowRole(t) => {
                if t == self.thread { std::thread::sleep(Duration::from_micros(100)); }
            }
            Delay::FastRole(t) => {
                if t != self.thread && r % 2 == 0 { std::thread::sleep(Duration::from_micros(80)); }
            }
        }
    }
    pub fn set_sess(&self, s: u8) { self.sess.set(s); }

    /// Fault injection point in front of every operation.
    pub fn fault_point(&self) -> F {
        let n = self.opno.get();
        self.opno.set(n + 1);
        self.run.opnos[self.thread].store(n + 1, Ordering::Relaxed);
        self.delay();
        if let Some((t, o, ms)) = self.run.plan.pause {
            if t == self.thread && o == n { std::thread::sleep(Duration::from_millis(ms)); }
        }
        for f in &self.run.plan.faults {
            if f.thread == self.thread && f.opno == n {
                self.ev(K::Fault, n, f.kind as u64, true);
                return match f.kind {
                    FaultKind::CancelErr => F::Cancel(false),
                    FaultKind::CancelOk => F::Cancel(true),
                    FaultKind::DropErr => F::Drop(false),
                    FaultKind::DropOk => F::Drop(true),
                    FaultKind::RetErr => F::Ret,
                    FaultKind::Panic => F::Panic,
                    FaultKind::Timeout => F::Timeout,
                    FaultKind::Stall => F::Stall,
                };
            }
        }
        F::Go
    }
    pub fn fault_ret(&self, ok: bool) -> Result<(), E> {
        if ok { Ok(()) } else { Err(some_error(self.rnd())) }
    }
    /// what a panic carries does not matter
    pub fn panic_now(&self) -> ! {
        match self.rnd() % 4 {
            0 => panic!("injected participant panic {}", self.thread),
            1 => std::panic::panic_any(17u8),
            2 => std::panic::resume_unwind(Box::new(())),
            _ => panic!("injected participant panic"),
        }
    }
    pub fn stall(&self) { std::thread::sleep(Duration::from_millis(90)); }
    pub fn finding(&self, class: &'static str, msg: &str) {
        self.run.notes.lock().unwrap().push((class, format!("participant {} op {:x}: {msg}", self.thread, self.op.get())));
    }
    /// moves clock c to `secs` s and `ms` ms
    pub fn wind(&self, clk: &mut HashMap<char, Instant>, c: char, secs: u64, ms: u64) {
        let now = Instant::now();
        clk.insert(c, now.checked_sub(Duration::from_millis(secs * 1000 + ms)).unwrap_or(now));
    }
    /// moves clock c close to the end of a window at `e` s
    pub fn near(&self, clk: &mut HashMap<char, Instant>, c: char, e: u64) {
        let r = match self.rnd() % 4 { 0 => 2 + self.rnd() % 6, 1 => 60, _ => 25 + self.rnd() % 30 };
        let now = Instant::now();
        clk.insert(c, now.checked_sub(Duration::from_millis(e * 1000 - r)).unwrap_or(now));
    }
    pub fn clk_before(&self, clk: &HashMap<char, Instant>) { *self.clk.borrow_mut() = (clk.clone(), Some(Instant::now())); }
    /// after an operation: exactly the clocks in `reset` moved, to an instant within the operation
    pub fn clk_after(&self, clk: &HashMap<char, Instant>, reset: &str) {
        let now = Instant::now();
        let b = self.clk.borrow();
        let Some(t0) = b.1 else { return };
        if b.0.len() != clk.len() || b.0.keys().any(|k| !clk.contains_key(k)) {
            self.finding("clock", &format!("the set of clocks changed from {:?} to {:?}", b.0.keys(), clk.keys()));
            return;
        }
        for (k, v) in &b.0 {
            let x = clk[k];
            if reset.contains(*k) {
                if x < t0 || x > now { self.finding("clock", &format!("clock {k} was to be reset by the operation (resets: {reset:?}) but reads {:?}", now.saturating_duration_since(x))); }
            } else if x != *v { self.finding("clock", &format!("clock {k} changed although the operation resets only {reset:?}")); }
        }
    }

    fn wait_dead_or(&self, max_us: u64, cond: impl Fn() -> bool) {
        let t = Instant::now();
        while !cond() && t.elapsed() < Duration::from_micros(max_us) {
            std::thread::yield_now();
        }
    }
    fn pre_send(&self, me: usize, q: usize) {
        let (s, run) = (self.sess.get(), &self.run);
        match run.plan.gate {
            Gate::EarlyRecv => {
                if self.rnd() % 2 == 0 {
                    let n = run.sent[ix(s, me, q)].load(Ordering::SeqCst);
                    self.wait_dead_or(300, || {
                        run.rcvd[ix(s, me, q)].load(Ordering::SeqCst) > n || run.any_exited()
                    });
                }
            }
            Gate::AfterFault => {
                if self.rnd() % 3 != 0 {
                    self.wait_dead_or(400, || run.any_exited());
                    if run.any_exited() && self.rnd() % 2 == 0 {
                        // let the cascade proceed a little
                        self.wait_dead_or(200, || run.exited.iter().all(|x| x.load(Ordering::SeqCst)));
                    }
                }
            }
            _ => {}
        }
    }
    fn pre_recv(&self, q: usize, me: usize) {
        let (s, run) = (self.sess.get(), &self.run);
        let n = run.rcvd[ix(s, q, me)].fetch_add(1, Ordering::SeqCst);
        match run.plan.gate {
            Gate::LateRecv(mask) if mask >> self.thread & 1 == 1 => {
                let mut g = run.gate_m.lock().unwrap();
                while run.sent[ix(s, q, me)].load(Ordering::SeqCst) <= n && !run.any_exited() {
                    g = run.gate_c.wait(g).unwrap();
                }
            }
            Gate::AfterFault => {
                if self.rnd() % 3 == 0 { self.wait_dead_or(300, || run.any_exited()); }
            }
            _ => {}
        }
    }
    fn post_send(&self, me: usize, q: usize) {
        self.run.sent[ix(self.sess.get(), me, q)].fetch_add(1, Ordering::SeqCst);
        self.run.wake();
    }

    fn new_uid(&self) -> u64 {
        let c = self.uid.get() + 1;
        self.uid.set(c);
        (self.run.id << 20) ^ ((self.thread as u64) << 16) ^ c
    }
    /// me/q are role numbers inside the session
    pub fn call_send<T: Payload>(&self, op: u32, me: usize, q: usize) -> T {
        self.pre_send(me, q);
        let x = T::make(self.new_uid());
        self.op.set(op);
        self.peer.set((0, me, q));
        self.ev(K::CallSend, op, x.fp(), true);
        x
    }
    pub fn ret_send<S>(&self, r: Result<S, E>) -> Result<S, E> {
        let (_, me, q) = self.peer.get();
        self.ev(K::RetSend, self.op.get(), 0, r.is_ok());
        self.post_send(me, q);
        if r.is_ok() { self.delay(); }
        r
    }
    pub fn call_recv(&self, op: u32, q: usize, me: usize) {
        self.op.set(op);
        self.ev(K::CallRecv, op, 0, true);
        self.pre_recv(q, me);
    }
    pub fn ret_recv<T: Payload, S>(&self, r: Result<(T, S), E>) -> Result<(T, S), E> {
        let fp = r.as_ref().map(|x| x.0.fp()).unwrap_or(0);
        self.ev(K::RetRecv, self.op.get(), fp, r.is_ok());
        if r.is_ok() { self.delay(); }
        r
    }
    /// Scripted branch selection; after the budget the escape branch is taken.
    pub fn decide(&self, nb: u64, escape: u64) -> u64 {
        let c = self.run.choices.fetch_add(1, Ordering::SeqCst);
        if let Some(bytes) = self.run.plan.deep {
            let n = self.turn();
            // nobody is left far behind, so that everybody's depth is known; where that cannot be had, the recursion ends
            let end = Instant::now() + Duration::from_millis(500);
            while self.run.nthreads > 1 && !self.run.any_exited()
                && self.run.turns.iter().any(|t| t.load(Ordering::SeqCst) + 16 < n) {
                if Instant::now() > end { self.run.deep_over.store(true, Ordering::SeqCst); break; }
                std::thread::yield_now();
            }
            if c >= self.run.plan.max_choices || self.run.deep_over.load(Ordering::SeqCst)
                || self.run.depths.iter().any(|d| d.load(Ordering::SeqCst) >= bytes) { return escape; }
            // mostly the same branch over and over: one of them may be the recursive one
            let few = mix(self.run.plan.seed ^ c as u64 * 7919);
            let k = if few >> 58 == 0 { few % nb } else { mix(self.run.plan.seed ^ (self.thread as u64) << 32 ^ nb) % nb };
            return if nb > 1 && k == escape { (k + 1) % nb } else { k };
        }
        if c >= self.run.plan.max_choices { return escape; }
        let k = mix(self.run.plan.seed ^ (c as u64 * 7919));
        if self.run.plan.persist && nb > 1 && k >> 60 != 0 && k % nb == escape { (k + 1) % nb } else { k % nb }
    }
    fn turn(&self) -> u32 {
        self.run.depths[self.thread].fetch_max(self.base.saturating_sub(here()), Ordering::SeqCst);
        self.run.turns[self.thread].fetch_add(1, Ordering::SeqCst) + 1
    }
    pub fn call_choose(&self, op: u32, k: u64) {
        self.op.set(op);
        self.ev(K::CallChoose, op, k, true);
    }
    /// `me` broadcast to all of the n roles
    pub fn ret_choose<S>(&self, me: usize, n: usize, r: Result<S, E>) -> Result<S, E> {
        self.ev(K::RetChoose, self.op.get(), 0, r.is_ok());
        for q in 0..n { if q != me { self.post_send(me, q); } }
        if r.is_ok() { self.delay(); }
        r
    }
    pub fn call_offer(&self, op: u32, q: usize, me: usize) -> u64 {
        let n = self.offers.get() + 1;
        self.offers.set(n);
        self.open_offer.set(n);
        self.ev(K::CallOffer, op, 0, true);
        self.pre_recv(q, me);
        n
    }
    pub fn branch(&self, op: u32, k: u64) {
        self.open_offer.set(0);
        if self.run.plan.deep.is_some() { self.turn(); }
        self.ev(K::Branch, op, k, true);
        self.delay();
    }
    pub fn end_offer(&self, n: u64, op: u32, r: Result<(), E>) -> Result<(), E> {
        if self.open_offer.get() == n {
            self.open_offer.set(0);
            // no handler ran: either the reception failed, or (ok) a handler was skipped
            self.ev(K::OfferErr, op, 0, r.is_ok());
        }
        r
    }
    pub fn call_close(&self, op: u32) {
        self.op.set(op);
        self.ev(K::CallClose, op, 0, true);
    }
    pub fn ret_close(&self, r: Result<(), E>) -> Result<(), E> {
        self.ev(K::RetClose, self.op.get(), 0, r.is_ok());
        r
    }
    // ---- one thread driving all participants of a session
    /// true in front of the operation at which a participant is to be stopped
    pub fn solo_stop(&self) -> bool { !matches!(self.fault_point(), F::Go) }
    pub fn solo_make<T: Payload>(&self, op: u32) -> T {
        self.op.set(op);
        let x = T::make(self.new_uid());
        self.solo.borrow_mut().insert(op, x.fp());
        self.ev(K::CallSend, op, x.fp(), true);
        x
    }
    /// an operation that must not fail
    pub fn solo_ret<S>(&self, r: Result<S, E>) -> Result<S, E> {
        if let Err(e) = &r { self.finding("solo", &format!("an operation failed although every participant is alive: {e}")); }
        r
    }
    pub fn solo_same(&self, op: u32, fp: u64) {
        self.ev(K::RetRecv, op, fp, true);
        let want = self.solo.borrow_mut().remove(&op);
        self.run.solo_matched.fetch_add(1, Ordering::Relaxed);
        if want != Some(fp) { self.finding("solo", &format!("op {op:x} received {fp:x}, sent was {want:x?}")); }
    }
    pub fn solo_closed(&self) {
        self.ev(K::RetClose, 0, 0, true);
        if !self.solo.borrow().is_empty() { self.finding("solo", "the session closed with messages outstanding"); }
    }
    pub fn note(&self, arg: u64) { self.ev(K::Note, 0, arg, true); }
}
