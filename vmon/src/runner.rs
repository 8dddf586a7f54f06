//! Workload loop: plans, statistics, verdicts, JSON report.
use crate::core::*;
use crate::json::*;
use crate::oracle::*;
use crate::payload::*;
use crate::watch;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One compiled protocol implementation.
pub struct Program {
    pub name: &'static str,
    pub mode: &'static str,
    /// per session of the program: description, and the thread playing each role
    pub sessions: &'static [(&'static Proto, &'static [usize])],
    pub nthreads: usize,
    /// forks the participants, joins them; one join result per thread (true = joined without panic)
    pub run: fn(&Arc<Run>) -> Vec<bool>,
    /// source location of the generated program, for replays
    pub src: &'static str,
    /// maximal number of operations of one thread along the escape path (for fault positions)
    pub ops: usize,
    pub fault_kinds: &'static [FaultKind],
    pub has_choice: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub secs: f64,
    pub workers: usize,
    pub out: String,
    pub faults: bool,
    pub gates: bool,
    pub no_clean: bool,
    pub max_choices: u32,
    pub property: String,
    pub only: Option<String>,
    pub max_sessions: u64,
    pub late_close: bool,
    /// executions per phase of the balance mode (0: normal mode)
    pub balance: u64,
    pub no_watch: bool,
    /// executions in which one participant pauses for this long (0: none)
    pub pause_ms: u64,
    pub pause_runs: usize,
    /// MiB of stack that the participants of some executions use (0: none)
    pub deep: usize,
}

impl Cfg {
    pub fn from_args() -> Cfg {
        let mut c = Cfg { seed: 1, secs: 5.0, workers: 2, out: String::new(), faults: false, gates: false, no_clean: false,
            max_choices: 8, property: "?".into(), only: None, max_sessions: u64::MAX, late_close: false, balance: 0, no_watch: false, pause_ms: 0, pause_runs: 16, deep: 0 };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--seed" => c.seed = v.parse().unwrap(),
                "--secs" => c.secs = v.parse().unwrap(),
                "--workers" => c.workers = v.parse().unwrap(),
                "--out" => c.out = v,
                "--property" => c.property = v,
                "--max-choices" => c.max_choices = v.parse().unwrap(),
                "--max-sessions" => c.max_sessions = v.parse().unwrap(),
                "--only" => c.only = Some(v),
                "--faults" => { c.faults = true; i += 1; continue; }
                "--gates" => { c.gates = true; i += 1; continue; }
                "--no-clean" => { c.no_clean = true; i += 1; continue; }
                "--pause-ms" => c.pause_ms = v.parse().unwrap(),
                "--pause-runs" => c.pause_runs = v.parse().unwrap(),
                "--deep" => c.deep = v.parse().unwrap(),
                "--balance" => c.balance = v.parse().unwrap(),
                "--no-watch" => { c.no_watch = true; i += 1; continue; }
                "--late-close" => { c.late_close = true; i += 1; continue; }
                x => panic!("unknown argument {x}"),
            }
            i += 2;
        }
        c
    }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub inter: HashSet<u64>,
    pub paths: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<String>,
    pub viol_keys: HashSet<String>,
    pub fault_sites: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
    pub fn violation(&mut self, prog: &str, class: &str, msg: &str, detail: String) {
        let key = format!("{prog}|{class}");
        self.add("violations", 1);
        if self.viol_keys.insert(key) && self.viols.len() < 40 {
            self.viols.push(obj(&[("program", esc(prog)), ("class", esc(class)), ("msg", esc(msg)), ("detail", detail)]));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        self.inter.extend(o.inter);
        self.paths.extend(o.paths);
        self.fault_sites.extend(o.fault_sites);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        for s in o.viols { if self.viols.len() < 60 { self.viols.push(s); } }
    }
    pub fn json(&self, extra: &[(&str, String)]) -> String {
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let mut v = vec![
            ("counters", format!("{{{}}}", c.join(","))),
            ("interleavings", self.inter.len().to_string()),
            ("paths", self.paths.len().to_string()),
            ("fault_sites", self.fault_sites.len().to_string()),
            ("samples", arr(&self.samples)),
            ("violations", arr(&self.viols)),
        ];
        v.extend_from_slice(extra);
        obj(&v)
    }
}

pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h ^ b as u64)) }

pub fn dump(run: &Run) -> String {
    let mut th = vec![];
    for t in 0..run.nthreads {
        let l = run.logs[t].lock().unwrap_or_else(|e| e.into_inner());
        let e: Vec<String> = l.iter().rev().take(120).rev()
            .map(|e| esc(&format!("{} {:?} s{} n{}.{:x} arg={:x} ok={}", e.seq, e.k, e.sess, e.op >> 8, e.op & 0xff, e.arg, e.ok)))
            .collect();
        let err = run.errs[t].lock().unwrap_or_else(|e| e.into_inner()).clone();
        th.push(obj(&[("thread", t.to_string()), ("error", esc(&err)), ("events", arr(&e))]));
    }
    obj(&[("program", esc(run.name)), ("run_id", run.id.to_string()), ("plan", esc(&format!("{:?}", run.plan))), ("threads", arr(&th))])
}

pub fn make_plan(rng: &mut Rng, p: &Program, cfg: &Cfg, lens: &[u32]) -> Plan {
    let seed = rng.next();
    let nt = p.nthreads as u64;
    let delay = match rng.below(7) {
        0 | 1 => Delay::None,
        2 => Delay::Yield,
        3 => Delay::Spin,
        4 => Delay::Sleep,
        5 => Delay::SlowRole(rng.below(nt) as usize),
        _ => Delay::FastRole(rng.below(nt) as usize),
    };
    let mut faults = vec![];
    let mut gate = Gate::None;
    // now and then a session that selects many times
    let scale = if cfg.max_choices > 0 && rng.chance(1, 16) { 24 } else { 1 };
    let max_choices = rng.below(cfg.max_choices as u64 * scale + 1) as u32;
    if cfg.faults && (cfg.no_clean || rng.chance(7, 8)) {
        let nf = if rng.chance(1, 6) { 2 } else { 1 };
        // positions: biased towards the operations of the first nodes, but covering later iterations
        for _ in 0..nf {
            let thread = rng.below(nt) as usize;
            // uniformly over the operations this participant performed in an earlier execution
            let span = lens.get(thread).copied().filter(|x| *x > 0).unwrap_or(p.ops as u32) as u64;
            let opno = if rng.chance(1, 6) { span.saturating_sub(1) } else { rng.below(span) };
            faults.push(Fault { thread, opno: opno as u32, kind: *rng.pick(p.fault_kinds) });
        }
        gate = match rng.below(3) { 0 => Gate::AfterFault, 1 => Gate::EarlyRecv, _ => Gate::None };
    } else if cfg.gates && rng.chance(3, 4) {
        gate = if rng.chance(3, 4) { Gate::LateRecv(if rng.chance(1, 2) { u64::MAX } else { rng.next() }) } else { Gate::EarlyRecv };
    } else if rng.chance(1, 4) {
        gate = Gate::EarlyRecv;
    }
    Plan { seed, delay, gate, faults, max_choices, persist: scale > 1, pause: None, deep: None }
}

static NEXT_RUN: AtomicU64 = AtomicU64::new(1);
pub static CURRENT: Mutex<Vec<Option<Arc<Run>>>> = Mutex::new(Vec::new());

/// Executes one plan and judges it. Returns whether it was clean.
pub fn execute(p: &Program, plan: Plan, slot: usize, st: &mut Stats, lens: &mut Vec<u32>) -> bool {
    let run = Run::new(NEXT_RUN.fetch_add(1, Ordering::SeqCst), p.name, p.nthreads, plan);
    CURRENT.lock().unwrap()[slot] = Some(run.clone());
    let joined = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&run)));
    CURRENT.lock().unwrap()[slot] = None;
    if run.plan.deep.is_some() {
        let d = run.depths.iter().map(|d| d.load(Ordering::Relaxed)).max().unwrap_or(0);
        st.add("deep_executions", 1);
        st.add("deep_executions_mib_of_stack", (d >> 20) as u64);
        st.add("deep_executions_selections", run.choices.load(Ordering::Relaxed) as u64);
        if d >= run.plan.deep.unwrap() { st.add("deep_executions_to_full_depth", 1); }
    }
    let now: Vec<u32> = run.opnos.iter().map(|x| x.load(Ordering::Relaxed)).collect();
    if lens.len() != now.len() { *lens = now; } else {
        for (l, x) in lens.iter_mut().zip(now) { if run.plan.faults.is_empty() || x > *l { *l = x; } }
    }
    match joined {
        Ok(j) => {
            watch::JUDGING.fetch_add(1, Ordering::SeqCst);
            let ok = judge(p, &run, &j, st);
            watch::JUDGING.fetch_sub(1, Ordering::SeqCst);
            ok
        }
        Err(_) => {
            st.violation(p.name, "caller-panic", "creating, forking or joining the participants panicked in the caller", dump(&run));
            false
        }
    }
}

pub fn judge(p: &Program, run: &Arc<Run>, joined: &[bool], st: &mut Stats) -> bool {
    let logs: Vec<Vec<Ev>> = run.logs.iter().map(|l| l.lock().unwrap().clone()).collect();
    let mut viols: Vec<Viol> = vec![];
    let any_fault = logs.iter().flatten().any(|e| e.k == K::Fault);
    // a participant to which a timeout was injected may fail by itself
    // and every participant may time out when windows are tight
    let tight = p.mode.ends_with("tight");
    let self_fail_thread: Vec<bool> = (0..p.nthreads)
        .map(|t| tight || logs[t].iter().any(|e| e.k == K::Fault && e.arg == FaultKind::Timeout as u64)).collect();
    let mut nev = 0;
    let solo = run.solo_matched.load(Ordering::Relaxed) as u64;
    if solo > 0 { st.add("solo_messages_matched", solo); }
    for (si, (proto, threads)) in p.sessions.iter().enumerate() {
        let mut rl: Vec<Vec<Ev>> = threads.iter().map(|t| logs[*t].iter()
            .filter(|e| e.sess as usize == si || matches!(e.k, K::Start | K::Fault | K::Exit)).copied().collect()).collect();
        if p.sessions.len() > 1 {
            // a participant of both sessions that fails in the other one terminates in this one, too
            for (r, t) in threads.iter().enumerate() {
                let l = &logs[*t];
                let failed = l.iter().any(|e| e.k == K::Exit && !e.ok) && !l.iter().any(|e| e.k == K::Fault);
                if let Some(e) = l.iter().rev().find(|e| e.k != K::Exit && e.k != K::Note) {
                    if failed && e.sess as usize != si {
                        let call = l.iter().rev().find(|e| matches!(e.k, K::CallSend | K::CallRecv | K::CallChoose | K::CallOffer | K::CallClose)).map(|e| e.seq).unwrap_or(e.seq);
                        let pos = rl[r].iter().position(|e| e.k == K::Exit).unwrap_or(rl[r].len());
                        rl[r].insert(pos, Ev { seq: call, k: K::Fault, sess: si as u8, op: 0, arg: 99, ok: true });
                    }
                }
            }
        }
        // a participant shared by two sessions may stop because of the other session
        let sf: Vec<bool> = threads.iter().map(|t| self_fail_thread[*t]).collect();
        let mut facts = Facts::default();
        nev += rl.iter().map(|l| l.len() as u64).sum::<u64>();
        viols.extend(check(proto, &rl, &sf, &mut facts));
        st.add("messages_matched", facts.msgs_matched);
        st.add("selections_followed", facts.choices);
        st.add("executions_with_over_100_selections", (facts.choices > 100) as u64);
        st.add("closes_ok", facts.closes_ok);
        st.add("failed_receives_justified", facts.failed_recv_justified);
        st.add("failed_sends_justified", facts.failed_send_justified);
        st.add("participants_completed", facts.completed_roles);
        if any_fault { st.add("survivors_failed_cleanly", facts.survivors_failed); }
        st.paths.insert(mix(hash_str(proto.name) ^ facts.path.iter().fold(1, |h, b| mix(h ^ *b as u64))));
    }
    for (class, m) in run.notes.lock().unwrap().drain(..) { viols.push(Viol { class, msg: m }); }
    for t in 0..p.nthreads {
        let ex = logs[t].iter().find(|e| e.k == K::Exit);
        match ex {
            None => viols.push(Viol { class: "join", msg: format!("participant {t} was joined without having run to an end") }),
            Some(e) => {
                if e.ok != joined[t] {
                    viols.push(Viol { class: "join", msg: format!("participant {t} ended with ok={} but joining its thread reported ok={}", e.ok, joined[t]) });
                }
            }
        }
    }
    // distinct interleaving = global order of (thread, event kind, op)
    let mut all: Vec<(u64, usize, K, u32)> = vec![];
    for (t, l) in logs.iter().enumerate() { for e in l { all.push((e.seq, t, e.k, e.op)); } }
    all.sort_unstable();
    let h = all.iter().fold(hash_str(p.name), |h, e| mix(h ^ ((e.1 as u64) << 40) ^ ((e.2 as u64) << 32) ^ e.3 as u64));
    if st.inter.len() < 3_000_000 { st.inter.insert(h); }
    st.add("executions", 1);
    st.add("events", nev);
    if any_fault {
        st.add("executions_with_fault", 1);
        for (t, l) in logs.iter().enumerate() {
            for e in l.iter().filter(|e| e.k == K::Fault) {
                st.fault_sites.insert(mix(hash_str(p.name) ^ ((t as u64) << 32) ^ ((e.op as u64) << 8) ^ e.arg));
            }
        }
    } else { st.add("executions_clean", 1); }
    if matches!(run.plan.gate, Gate::LateRecv(_)) { st.add("executions_receivers_late", 1); }
    st.add(&format!("mode:{}", p.mode), 1);
    if st.samples.len() < 3 {
        let s: Vec<String> = all.iter().take(14).map(|e| format!("t{}:{:?}@n{}.{:x}", e.1, e.2, e.3 >> 8, e.3 & 0xff)).collect();
        st.samples.push(esc(&format!("{} plan={:?} events={} : {} ...", p.name, run.plan, all.len(), s.join(" "))));
    }
    let clean = viols.is_empty();
    for v in viols {
        st.violation(p.name, v.class, &v.msg, dump(run));
    }
    clean
}

pub fn write_report(cfg: &Cfg, st: &Stats, verdict: &str, extra: &[(&str, String)]) {
    let mut e = vec![("verdict", esc(verdict)), ("seed", cfg.seed.to_string())];
    e.extend_from_slice(extra);
    let s = st.json(&e);
    if cfg.out.is_empty() { println!("{s}"); } else { std::fs::write(&cfg.out, s).unwrap(); }
}

pub static SILENT: AtomicBool = AtomicBool::new(true);

pub fn spawn_watch(cfg: &Cfg, shared: Arc<Mutex<Stats>>) {
    if cfg.no_watch { return; }
    let cfg2 = cfg.clone();
    std::thread::Builder::new().name("vmon-watch".into()).spawn(move || {
        watch::watch(|| SEQ.load(Ordering::SeqCst), |kind, ts| {
            let mut st = Stats::default();
            if let Ok(s) = shared.lock() { st.samples = s.samples.clone(); }
            let cur: Vec<Arc<Run>> = match CURRENT.lock() { Ok(c) => c.iter().flatten().cloned().collect(), Err(_) => vec![] };
            let tl: Vec<String> = ts.iter().map(|t| esc(&format!("{} {} state={} blocked_in_untimed_futex={} cpu={:.2}", t.tid, t.name, t.state, t.blocked, t.cpu))).collect();
            let names: Vec<&str> = cur.iter().map(|r| r.name).collect();
            let det: Vec<String> = cur.iter().map(|r| dump(r)).collect();
            st.violation(names.first().copied().unwrap_or("?"), kind,
                &format!("{kind}: no participant of the running session(s) {names:?} can make progress"),
                obj(&[("os_threads", arr(&tl)), ("runs", arr(&det))]));
            st.add("executions", 1);
            write_report(&cfg2, &st, "violated", &[]);
            if std::env::var_os("VMON_HANG").is_some() { loop { std::thread::sleep(std::time::Duration::from_secs(1)); } }
            quit(3);
        });
    }).unwrap();
}

/// Main loop of a workload binary.
pub fn main_loop(programs: Vec<&'static Program>) {
    let cfg = Cfg::from_args();
    std::panic::set_hook(Box::new(|_| {}));
    let programs: Vec<&'static Program> = programs.into_iter()
        .filter(|p| cfg.only.as_ref().is_none_or(|o| p.name == o)).collect();
    if programs.is_empty() { write_report(&cfg, &Stats::default(), "held", &[]); return; }
    let total = Arc::new(Mutex::new(Stats::default()));
    let pausers = if cfg.pause_ms > 0 && cfg.balance == 0 { cfg.pause_runs } else { 0 };
    *CURRENT.lock().unwrap() = (0..cfg.workers + pausers + 1).map(|_| None).collect();
    spawn_watch(&cfg, total.clone());
    if cfg.balance > 0 {
        let mut st = Stats::default();
        for p in &programs {
            let mut rng = Rng::new(mix(cfg.seed) ^ hash_str(p.name));
            let mut lens: Vec<u32> = vec![];
            let cfg2 = cfg.clone();
            balance(p.name, cfg.balance, &mut st, &mut |st| {
                let mut tmp = Stats::default();
                let plan = make_plan(&mut rng, p, &cfg2, &lens);
                execute(p, plan, 0, &mut tmp, &mut lens);
                take(tmp, st);
            });
        }
        watch::STOP.store(true, Ordering::SeqCst);
        write_report(&cfg, &st, if st.viols.is_empty() { "held" } else { "violated" }, &[]);
        return;
    }
    let deadline = Instant::now() + Duration::from_secs_f64(cfg.secs);
    let progs = Arc::new(programs);
    let per_prog: Arc<Vec<AtomicU64>> = Arc::new(progs.iter().map(|_| AtomicU64::new(0)).collect());
    let executed = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for w in 0..cfg.workers {
        let (cfg, progs, total, per_prog, executed) = (cfg.clone(), progs.clone(), total.clone(), per_prog.clone(), executed.clone());
        hs.push(std::thread::Builder::new().name(format!("vmon-w{w}")).stack_size(64 << 20).spawn(move || {
            let mut st = Stats::default();
            let mut rng = Rng::new(cfg.seed.wrapping_mul(1000003) ^ (w as u64) << 50 ^ hash_str(&cfg.property));
            let mut i = w;
            let mut bad = 0;
            let mut lens: Vec<Vec<u32>> = vec![vec![]; progs.len()];
            // every program at least twice, then until the deadline
            let mut rounds = 0u64;
            while (rounds < 2 * progs.len() as u64 || Instant::now() < deadline)
                && Instant::now() < deadline + Duration::from_secs(30)
                && executed.load(Ordering::Relaxed) < cfg.max_sessions {
                let k = i % progs.len();
                let p = progs[k];
                i += 1;
                rounds += 1;
                let plan = make_plan(&mut rng, p, &cfg, &lens[k]);
                per_prog[k].fetch_add(1, Ordering::Relaxed);
                executed.fetch_add(1, Ordering::Relaxed);
                if !execute(p, plan, w, &mut st, &mut lens[k]) {
                    bad += 1;
                    if bad > 200 { break; }
                }
            }
            total.lock().unwrap().merge(st);
        }).unwrap());
    }
    // (participants with time windows do not wait for ever)
    let patient: Arc<Vec<&'static Program>> = Arc::new(progs.iter().copied().filter(|p| !p.fault_kinds.iter().any(|k| matches!(k, FaultKind::Timeout | FaultKind::Stall))).collect());
    let pausers = if patient.is_empty() { 0 } else { pausers };
    // executions in which one participant stays away for a long time: the others wait for it, however long
    for k in 0..pausers {
        let (cfg, progs, total) = (cfg.clone(), patient.clone(), total.clone());
        let slot = cfg.workers + k;
        hs.push(std::thread::Builder::new().name(format!("vmon-p{k}")).stack_size(64 << 20).spawn(move || {
            let mut st = Stats::default();
            let mut rng = Rng::new(cfg.seed.wrapping_mul(7368787) ^ ((k as u64) << 40) ^ hash_str(&cfg.property));
            let p = progs[(k + cfg.seed as usize) % progs.len()];
            let mut lens = vec![];
            let mut plan = make_plan(&mut rng, p, &cfg, &lens);
            plan.persist = false;
            plan.max_choices = plan.max_choices.min(cfg.max_choices).min(4);
            plan.delay = Delay::None;
            plan.gate = Gate::None;
            let mut first = plan.clone();
            first.faults.clear();
            if execute(p, first, slot, &mut st, &mut lens) {
                let thread = rng.below(p.nthreads as u64) as usize;
                let span = lens.get(thread).copied().unwrap_or(1).max(1);
                // half of them in front of the last operation
                let opno = if rng.chance(1, 2) { span - 1 } else { rng.below(span as u64) as u32 };
                if let Some(f) = plan.faults.first_mut() { if rng.chance(1, 2) { f.thread = thread; f.opno = opno; } }
                plan.pause = Some((thread, opno, cfg.pause_ms));
                execute(p, plan, slot, &mut st, &mut lens);
                st.add("executions_with_a_long_pause", 1);
            }
            total.lock().unwrap().merge(st);
        }).unwrap());
    }
    // executions that recurse deeply
    let divers: Vec<&'static Program> = progs.iter().copied().filter(|p| cfg.deep > 0 && !p.mode.ends_with("tight")).collect();
    if !divers.is_empty() {
        let (cfg, total) = (cfg.clone(), total.clone());
        let slot = cfg.workers + pausers;
        hs.push(std::thread::Builder::new().name("vmon-d".into()).stack_size(64 << 20).spawn(move || {
            let mut st = Stats::default();
            let mut rng = Rng::new(cfg.seed.wrapping_mul(15485863) ^ hash_str(&cfg.property));
            let end = Instant::now() + Duration::from_secs_f64(cfg.secs.max(6.0));
            let first = rng.below(divers.len() as u64) as usize;
            // a program is left when three attempts got nowhere; those that recurse come again
            let mut poor = vec![0u32; divers.len()];
            let mut k = 0;
            while (k == 0 || Instant::now() < end) && poor.iter().any(|x| *x < 3) {
                let at = (first + k) % divers.len();
                k += 1;
                if poor[at] >= 3 { continue; }
                let p = divers[at];
                let mut plan = make_plan(&mut rng, p, &cfg, &[]);
                plan.faults.clear();
                plan.max_choices = 40_000;
                plan.delay = Delay::None;
                plan.gate = Gate::None;
                plan.deep = Some(cfg.deep << 20);
                let full = |st: &Stats| st.counters.get("deep_executions_to_full_depth").copied();
                let before = full(&st);
                execute(p, plan, slot, &mut st, &mut vec![]);
                if full(&st) != before { poor[at] = 2; } else { poor[at] += 1; }
            }
            total.lock().unwrap().merge(st);
        }).unwrap());
    }
    let mut crashed = false;
    for h in hs { crashed |= h.join().is_err(); }
    watch::STOP.store(true, Ordering::SeqCst);
    let mut st = total.lock().unwrap();
    let (made, live, bad) = (TOK_MADE.load(Ordering::SeqCst), TOK_LIVE.load(Ordering::SeqCst), TOK_BAD.load(Ordering::SeqCst));
    st.add("tracked_payloads", made);
    if live != 0 { st.violation("process", "leak", &format!("{live} of {made} tracked payloads were not dropped exactly once after all sessions ended"), "null".into()); }
    if bad != 0 { st.violation("process", "drop", &format!("{bad} uses of a payload after its drop"), "null".into()); }
    let pp: Vec<String> = progs.iter().enumerate().map(|(i, p)| format!("{}:{}", esc(p.name), per_prog[i].load(Ordering::Relaxed))).collect();
    let verdict = if crashed { "crashed" } else if st.viols.is_empty() { "held" } else { "violated" };
    write_report(&cfg, &st, verdict, &[("per_program", format!("{{{}}}", pp.join(",")))]);
}

// ------------------------------------------------------------------------------------------
// Hand-written workloads: functions that execute one randomised case and judge it themselves.

pub static CASES: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub struct Case {
    pub name: &'static str,
    pub f: fn(&mut Rng, &mut Stats),
}

/// Every case is executed at least `min_rounds` times and then until the deadline.
pub fn case_loop(cases: Vec<Case>, min_rounds: u64) {
    let cfg = Cfg::from_args();
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Arc<Vec<Case>> = Arc::new(cases.into_iter().filter(|c| cfg.only.as_ref().is_none_or(|o| c.name == o)).collect());
    let total = Arc::new(Mutex::new(Stats::default()));
    *CASES.lock().unwrap() = vec![String::new(); cfg.workers];
    let cfg2 = cfg.clone();
    if !cfg.no_watch { std::thread::Builder::new().name("vmon-watch".into()).spawn(move || {
        watch::watch(|| SEQ.load(Ordering::SeqCst), |kind, ts| {
            let mut st = Stats::default();
            let cur = CASES.lock().map(|c| c.clone()).unwrap_or_default();
            let tl: Vec<String> = ts.iter().map(|t| esc(&format!("{} {} state={} blocked_in_untimed_futex={} cpu={:.2}", t.tid, t.name, t.state, t.blocked, t.cpu))).collect();
            let names: Vec<&String> = cur.iter().filter(|x| !x.is_empty()).collect();
            let prog = names.first().map(|s| s.split(' ').next().unwrap_or("?").to_string()).unwrap_or_default();
            st.violation(&prog, kind, &format!("{kind}: no thread of the running case(s) {names:?} can make progress"), obj(&[("os_threads", arr(&tl))]));
            st.add("executions", 1);
            write_report(&cfg2, &st, "violated", &[]);
            quit(3);
        });
    }).unwrap(); }
    if cfg.balance > 0 {
        let mut st = Stats::default();
        for c in cases.iter() {
            CASES.lock().unwrap()[0] = c.name.to_string();
            let mut rng = Rng::new(mix(cfg.seed) ^ hash_str(c.name));
            balance(c.name, cfg.balance, &mut st, &mut |st| {
                let mut tmp = Stats::default();
                if guarded(|| (c.f)(&mut rng, &mut tmp)).is_err() { tmp.add("panics_in_cases", 1); }
                tmp.add("executions", 1);
                next_seq();
                take(tmp, st);
            });
        }
        watch::STOP.store(true, Ordering::SeqCst);
        write_report(&cfg, &st, if st.viols.is_empty() { "held" } else { "violated" }, &[]);
        return;
    }
    let deadline = Instant::now() + Duration::from_secs_f64(cfg.secs);
    let mut hs = vec![];
    for w in 0..cfg.workers {
        let (cfg, cases, total) = (cfg.clone(), cases.clone(), total.clone());
        hs.push(std::thread::Builder::new().name(format!("vmon-w{w}")).stack_size(64 << 20).spawn(move || {
            let mut st = Stats::default();
            let mut rounds = 0u64;
            let mut bad = 0;
            let mut i = w;
            while (rounds < min_rounds * cases.len() as u64 || Instant::now() < deadline) && Instant::now() < deadline + Duration::from_secs(60) && rounds < cfg.max_sessions {
                let c = &cases[i % cases.len()];
                let seed = mix(cfg.seed.wrapping_mul(7919) ^ ((w as u64) << 48) ^ rounds ^ hash_str(c.name));
                i += 1;
                rounds += 1;
                CASES.lock().unwrap()[w] = format!("{} seed={seed}", c.name);
                let before = st.counters.get("violations").copied().unwrap_or(0);
                let mut rng = Rng::new(seed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.f)(&mut rng, &mut st)));
                if let Err(e) = r {
                    let m = panic_msg(&e);
                    st.violation(c.name, "caller-panic", &format!("unexpected panic in case seed={seed}: {m}"), "null".into());
                }
                st.add("executions", 1);
                st.add(&format!("case:{}", c.name), 1);
                next_seq();
                if st.counters.get("violations").copied().unwrap_or(0) > before { bad += 1; if bad > 300 { break; } }
            }
            CASES.lock().unwrap()[w] = String::new();
            total.lock().unwrap().merge(st);
        }).unwrap());
    }
    let mut crashed = false;
    for h in hs { crashed |= h.join().is_err(); }
    watch::STOP.store(true, Ordering::SeqCst);
    // detached threads may still be releasing their payloads
    let t = Instant::now();
    while TOK_LIVE.load(Ordering::SeqCst) != 0 && t.elapsed() < Duration::from_secs(5) { std::thread::sleep(Duration::from_millis(2)); }
    let mut st = total.lock().unwrap();
    let (made, live, bad) = (TOK_MADE.load(Ordering::SeqCst), TOK_LIVE.load(Ordering::SeqCst), TOK_BAD.load(Ordering::SeqCst));
    st.add("tracked_payloads", made);
    if live != 0 { st.violation("process", "leak", &format!("{live} of {made} tracked payloads were not dropped exactly once"), "null".into()); }
    if bad != 0 { st.violation("process", "drop", &format!("{bad} uses of a payload after its drop"), "null".into()); }
    let verdict = if crashed { "crashed" } else if st.viols.is_empty() { "held" } else { "violated" };
    write_report(&cfg, &st, verdict, &[]);
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
}

/// Runs f, returning Err(message) on panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}

// ------------------------------------------------------------------------------------------
// Balance: finished sessions leave nothing behind.

/// keeps the numbers of an execution that was only watched for its resources
fn take(tmp: Stats, st: &mut Stats) {
    for k in ["executions", "executions_with_fault", "messages_matched", "events"] { if let Some(v) = tmp.counters.get(k) { st.add(k, *v); } }
    if tmp.counters.get("violations").copied().unwrap_or(0) > 0 { st.add("executions_judged_bad_elsewhere", 1); }
    // constant memory: what the sample set may hold is bounded
    if st.inter.len() < 100_000 { for h in tmp.inter { st.inter.insert(h); } }
}

fn entries(d: &str) -> i64 { std::fs::read_dir(d).map(|r| r.count() as i64).unwrap_or(0) }
fn tasks() -> i64 { entries("/proc/self/task") }

/// (live blocks, live bytes, threads, open files) once nothing changes any more
fn measure(base_tasks: i64) -> [i64; 4] {
    let t = Instant::now();
    while tasks() > base_tasks && t.elapsed() < Duration::from_secs(6) { std::thread::sleep(Duration::from_millis(2)); }
    let mut last = 0;
    let mut same = 0;
    while same < 3 && t.elapsed() < Duration::from_secs(8) {
        let b = crate::alloc::BLOCKS.load(Ordering::SeqCst);
        if b == last { same += 1 } else { same = 0; last = b; }
        std::thread::sleep(Duration::from_millis(3));
    }
    [crate::alloc::BLOCKS.load(Ordering::SeqCst), crate::alloc::BYTES.load(Ordering::SeqCst), tasks(), entries("/proc/self/fd")]
}

/// Runs phases of n executions; a resource that grows in every phase, by at least one unit per 40 executions,
/// is held by finished sessions.
pub fn balance(name: &str, n: u64, st: &mut Stats, f: &mut dyn FnMut(&mut Stats)) {
    const PHASES: usize = 4;
    if st.inter.capacity() < 200_000 { st.inter.reserve(200_000); }
    let base_tasks = tasks();
    let (live0, bad0) = (TOK_LIVE.load(Ordering::SeqCst), TOK_BAD.load(Ordering::SeqCst));
    // every phase doubles the number of executions so far, so that a leak into a table that grows by doubling shows in every phase
    let w = (n / 3).max(12);
    for _ in 0..w { f(st); }
    let mut m = [[0i64; 4]; PHASES + 1];
    m[0] = measure(base_tasks);
    for p in 0..PHASES {
        for _ in 0..w << p { f(st); }
        m[p + 1] = measure(base_tasks);
    }
    // more of the same before an accusation
    for (k, what) in ["allocated blocks", "allocated bytes", "threads", "open files"].iter().enumerate() {
        let d: Vec<i64> = (0..PHASES).map(|p| m[p + 1][k] - m[p][k]).collect();
        let need = |p: usize| ((w << p) as i64 / 40).max(1) * if k == 1 { 8 } else { 1 };
        if d.iter().enumerate().all(|(p, x)| *x >= need(p)) {
            st.violation(name, "growth", &format!("{what} grow with the number of finished sessions: {d:?} more after {w} executions, twice, four and eight times as many"), esc(&format!("{m:?}")));
        }
    }
    if m[PHASES][2] > base_tasks { st.violation(name, "threads", &format!("{} threads are left after all sessions ended", m[PHASES][2] - base_tasks), "null".into()); }
    let (live, bad) = (TOK_LIVE.load(Ordering::SeqCst) - live0, TOK_BAD.load(Ordering::SeqCst) - bad0);
    if live != 0 { st.violation(name, "leak", &format!("{live} tracked payloads more than before: not every payload was dropped exactly once"), "null".into()); }
    if bad != 0 { st.violation(name, "drop", &format!("{bad} uses of a payload after its drop"), "null".into()); }
    st.add("programs_balanced", 1);
    if st.samples.len() < 8 { st.samples.push(esc(&format!("{name}: [blocks, bytes, threads, files] after warm-up ({w} executions) and whenever their number doubled: {m:?}"))); }
}

extern "C" { fn _exit(code: i32) -> !; }
/// ends the process without running exit handlers (participants are stuck)
fn quit(code: i32) -> ! { unsafe { _exit(code) } }
