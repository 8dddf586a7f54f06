//! Online deadlock / livelock detector. Deadlock: every thread of the process except the watcher
//! is blocked in a futex wait without timeout and none of them has been scheduled over many
//! consecutive samples - nobody is left to wake anybody. Livelock: all but the spinning threads
//! are blocked in that way, and the spinning threads, all of them, burned SPIN_CPU seconds of
//! processor time without any event being recorded.
use std::collections::HashMap;
use std::fs;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::time::{Duration, Instant};

pub static STOP: AtomicBool = AtomicBool::new(false);
/// executions that are being judged
pub static JUDGING: AtomicU32 = AtomicU32::new(0);
const SPIN_CPU: f64 = 6.0;
/// samples (60 ms each) without any progress, all threads in futex waits, some of them timed
const TIMED_STUCK: u32 = 220;

#[derive(Clone, Debug)]
pub struct T { pub tid: u32, pub name: String, pub blocked: bool, pub timed: bool, pub known: bool, pub state: char, pub ctx: u64, pub cpu: f64 }

pub fn my_tid() -> u32 {
    fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn threads() -> Vec<T> {
    let mut out = vec![];
    let Ok(rd) = fs::read_dir("/proc/self/task") else { return out };
    for e in rd.flatten() {
        let Ok(tid) = e.file_name().to_string_lossy().parse::<u32>() else { continue };
        let b = format!("/proc/self/task/{tid}");
        let Ok(st) = fs::read_to_string(format!("{b}/status")) else { continue };
        let mut ctx = 0;
        let mut state = '?';
        let mut name = String::new();
        for l in st.lines() {
            if l.contains("ctxt_switches") { ctx += l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0); }
            if let Some(x) = l.strip_prefix("State:") { state = x.trim().chars().next().unwrap_or('?'); }
            if let Some(x) = l.strip_prefix("Name:") { name = x.trim().to_string(); }
        }
        let (mut known, mut blocked, mut timed) = (false, false, false);
        if let Ok(sc) = fs::read_to_string(format!("{b}/syscall")) {
            let w: Vec<&str> = sc.split_whitespace().collect();
            if !w.is_empty() {
                known = true;
                // futex: nr 202 (x86-64) or 98 (aarch64); args: uaddr, op, val, timeout
                let fut = if cfg!(target_arch = "aarch64") { "98" } else { "202" };
                if w[0] == fut && w.len() > 4 { if w[4] == "0x0" { blocked = true; } else { timed = true; } }
            }
        }
        let mut cpu = 0.0;
        if let Ok(s) = fs::read_to_string(format!("{b}/stat")) {
            if let Some(p) = s.rfind(')') {
                let w: Vec<&str> = s[p + 1..].split_whitespace().collect();
                if w.len() > 13 {
                    let u: f64 = w[11].parse().unwrap_or(0.0);
                    let k: f64 = w[12].parse().unwrap_or(0.0);
                    cpu = (u + k) / 100.0;
                }
            }
        }
        out.push(T { tid, name, blocked, timed, known, state, ctx, cpu });
    }
    out
}

/// Runs until STOP; calls `on_stuck(kind)` once when the process is stuck.
pub fn watch(progress: impl Fn() -> u64, on_stuck: impl FnOnce(&'static str, Vec<T>)) {
    let me = my_tid();
    let mut last: HashMap<u32, u64> = HashMap::new();
    let mut same = 0u32;
    let mut timed_same = 0u32;
    let mut last_prog = progress();
    let mut spin_base: HashMap<u32, f64> = HashMap::new();
    let mut spin_since = Instant::now();
    let mut blocked_base: HashMap<u32, u64> = HashMap::new();
    loop {
        std::thread::sleep(Duration::from_millis(60));
        if STOP.load(Ordering::SeqCst) { return; }
        let p = progress();
        let ts: Vec<T> = threads().into_iter().filter(|t| t.tid != me).collect();
        if p != last_prog {
            last_prog = p;
            same = 0;
            timed_same = 0;
            last.clear();
            spin_base.clear();
            continue;
        }
        let all_blocked = !ts.is_empty() && ts.iter().all(|t| if t.known { t.blocked } else { t.state == 'S' });
        let need = if ts.iter().all(|t| t.known) { 14 } else { 500 };
        let unchanged = ts.len() == last.len() && ts.iter().all(|t| last.get(&t.tid) == Some(&t.ctx));
        if all_blocked && (unchanged || same == 0) { same += 1; } else { same = 0; }
        last = ts.iter().map(|t| (t.tid, t.ctx)).collect();
        // waits whose time limit is far away: nobody is left to wake anybody, either
        let tb = !ts.is_empty() && ts.iter().all(|t| t.known && (t.blocked || t.timed));
        if tb && (unchanged || timed_same == 0) { timed_same += 1; } else { timed_same = 0; }
        if timed_same >= TIMED_STUCK {
            on_stuck("deadlock", ts);
            return;
        }
        if same >= need {
            on_stuck("deadlock", ts);
            return;
        }
        // livelock
        if spin_base.is_empty() {
            spin_base = ts.iter().map(|t| (t.tid, t.cpu)).collect();
            blocked_base = ts.iter().map(|t| (t.tid, t.ctx)).collect();
            spin_since = Instant::now();
            continue;
        }
        if ts.len() != spin_base.len() || ts.iter().any(|t| !spin_base.contains_key(&t.tid)) {
            spin_base.clear();
            continue;
        }
        // an oracle at work burns processor time, too
        if JUDGING.load(Ordering::SeqCst) > 0 { spin_base.clear(); continue; }
        // every thread is blocked for good or burns processor time; many of them share the processors
        let burned: Vec<f64> = ts.iter()
            .filter(|t| !(t.known && t.blocked && blocked_base.get(&t.tid) == Some(&t.ctx)))
            .map(|t| t.cpu - spin_base[&t.tid]).collect();
        let most = burned.iter().cloned().fold(0.0, f64::max);
        let share = f64::max(0.5, SPIN_CPU / burned.len().max(1) as f64);
        let spinner = burned.iter().sum::<f64>() >= SPIN_CPU && most >= share;
        let rest_ok = burned.iter().all(|d| *d >= most * 0.3 && *d >= share * 0.3);
        if spinner && rest_ok && spin_since.elapsed() > Duration::from_secs(5) {
            on_stuck("livelock", ts);
            return;
        }
        if most >= 2.0 * SPIN_CPU && !rest_ok { spin_base.clear(); }
    }
}
