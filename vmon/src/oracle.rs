//! Offline oracle: a recorded history is checked against the static description of the protocol.
use crate::core::*;
use std::collections::HashMap;

#[derive(Debug)]
pub enum Term {
    End,
    /// chooser, targets of the branches, escape branch
    Choice(usize, &'static [usize], usize),
}
#[derive(Debug)]
pub struct Node {
    /// (sender, receiver, payload type name)
    pub msgs: &'static [(usize, usize, &'static str)],
    pub term: Term,
}
#[derive(Debug)]
pub struct Proto {
    pub name: &'static str,
    pub n: usize,
    pub nodes: &'static [Node],
    /// sends report the death of the receiver
    pub fallible_send: bool,
    /// close of a role succeeds only if all roles called close (false: no close at all)
    pub strict_close: bool,
    /// role 0 only relays cancellation signals: no messages, no choices, one broadcast_cancel loop;
    /// checked sends and offers of the others fail once somebody cancelled
    pub central: bool,
}

pub const TERM_IX: u32 = 0xff;
pub const CENTRAL_OP: u32 = 0xffffff;
pub fn op(node: usize, ix: usize) -> u32 { ((node as u32) << 8) | ix as u32 }

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub msg: String,
}

#[derive(Default, Debug)]
pub struct Facts {
    pub msgs_matched: u64,
    pub choices: u64,
    pub closes_ok: u64,
    pub failed_recv_justified: u64,
    pub failed_send_justified: u64,
    pub must_fail_sends: u64,
    pub completed_roles: u64,
    pub survivors_failed: u64,
    pub path: Vec<u8>,
}

#[derive(Clone, Copy)]
struct SendRec { fp: u64, call: u64, ret: Option<(u64, bool)> }

struct RoleCur<'a> {
    evs: &'a [Ev],
    i: usize,
    stopped: Option<u64>, // seq at which termination began
    done: bool,
    faulted: bool,
}

impl<'a> RoleCur<'a> {
    fn peek(&self) -> Option<Ev> { self.evs.get(self.i).copied() }
}

/// `logs[r]` is the event list of role r restricted to this session, including Start/Fault/Exit.
/// `timing_ok_fail`: operations may also fail by themselves (timed faults were injected).
pub fn check(p: &Proto, logs: &[Vec<Ev>], self_fail: &[bool], facts: &mut Facts) -> Vec<Viol> {
    let mut v: Vec<Viol> = Vec::new();
    let n = p.n;
    let mut cur: Vec<RoleCur> = logs
        .iter()
        .map(|l| {
            let i = usize::from(!l.is_empty() && l[0].k == K::Start);
            RoleCur { evs: l, i, stopped: None, done: false, faulted: l.iter().any(|e| e.k == K::Fault) }
        })
        .collect();
    let any_fault = cur.iter().any(|c| c.faulted) || self_fail.iter().any(|x| *x);
    let exit_seq: Vec<Option<u64>> =
        logs.iter().map(|l| l.iter().rev().find(|e| e.k == K::Exit).map(|e| e.seq)).collect();

    // ---- walk the protocol
    let mut sends: HashMap<(usize, usize), SendRec> = HashMap::new(); // (visit, msg)
    struct RecvRec { visit: usize, msg: usize, role: usize, ok: bool, fp: u64, ret: u64 }
    let mut recvs: Vec<RecvRec> = Vec::new();
    let mut closes: Vec<(usize, u64, Option<(u64, bool)>)> = Vec::new(); // role, call, ret
    let mut last_choose_ret: u64 = 0;
    // a selection that failed half-way: some participants follow it, the ends of the others are gone
    let mut failed_choice = u64::MAX;
    struct FailSend { visit: u64, q: usize, r: usize, ret: u64, what: String }
    let mut fail_sends: Vec<FailSend> = Vec::new();
    let mut node = 0usize;
    let mut visit = 0usize;
    let mut reached_end = false;
    'walk: loop {
        let nd = &p.nodes[node];
        let mut choice: Option<(u64, u64, Option<(u64, bool)>)> = None; // k, call, ret
        // chooser first, so that the branch is known
        let mut order: Vec<usize> = (0..n).collect();
        if let Term::Choice(c, _, _) = nd.term { order.swap(0, c); }
        for &r in &order {
            if cur[r].stopped.is_some() { continue; }
            let c = &mut cur[r];
            macro_rules! stop_or_next {
                ($want:expr, $o:expr) => {{
                    match c.peek() {
                        None => { c.stopped = Some(u64::MAX); break; }
                        Some(e) if e.k == K::Fault || e.k == K::Exit => { c.stopped = Some(e.seq); break; }
                        Some(e) if e.k == $want && e.op == $o => { c.i += 1; e }
                        Some(e) => {
                            v.push(Viol { class: "order", msg: format!("role {r} performed {:?} of op {:x} where the protocol prescribes {:?} of op {:x} (visit {visit}, node {node})", e.k, e.op, $want, $o) });
                            break 'walk;
                        }
                    }
                }};
            }
            #[allow(clippy::never_loop)]
            'role: loop {
                let mut mi = 0;
                while mi < nd.msgs.len() {
                    let (s, q, _) = nd.msgs[mi];
                    let o = op(node, mi);
                    if s == r {
                        let call = match c.peek() {
                            None => { c.stopped = Some(u64::MAX); break 'role; }
                            Some(e) if e.k == K::Fault || e.k == K::Exit => { c.stopped = Some(e.seq); break 'role; }
                            Some(e) if e.k == K::CallSend && e.op == o => { c.i += 1; e }
                            Some(e) => { v.push(Viol { class: "order", msg: format!("role {r} performed {:?} of op {:x} where the protocol prescribes a send, op {:x}", e.k, e.op, o) }); break 'walk; }
                        };
                        let mut rec = SendRec { fp: call.arg, call: call.seq, ret: None };
                        match c.peek() {
                            Some(e) if e.k == K::RetSend && e.op == o => {
                                c.i += 1;
                                rec.ret = Some((e.seq, e.ok));
                                sends.insert((visit, mi), rec);
                                if !e.ok {
                                    c.stopped = Some(call.seq);
                                    fail_sends.push(FailSend { visit: visit as u64, q, r, ret: e.seq, what: format!("send {r}->{q} op {o:x} visit {visit}") });
                                    break 'role;
                                } else if p.central {
                                    if let Some(x) = exit_seq[0] {
                                        if x < call.seq {
                                            v.push(Viol { class: "cancel-missed", msg: format!("checked send {r}->{q} op {o:x} visit {visit} called at {} succeeded although the central role had broadcast the cancellation and ended at {x}", call.seq) });
                                        }
                                    }
                                } else if p.fallible_send {
                                    // the receiver was already gone, and every channel end it owns with it
                                    if let Some(x) = exit_seq[q] {
                                        if x < call.seq && (visit == 0 || (last_choose_ret != 0 && last_choose_ret < call.seq)) {
                                            v.push(Viol { class: "send-unfailed", msg: format!("send {r}->{q} op {o:x} visit {visit} called at {} reported success although role {q} had terminated at {x}", call.seq) });
                                        }
                                    }
                                }
                            }
                            other => {
                                sends.insert((visit, mi), rec);
                                c.stopped = Some(call.seq);
                                let ret = other.map(|e| e.seq).unwrap_or(u64::MAX);
                                fail_sends.push(FailSend { visit: visit as u64, q, r, ret, what: format!("panicking send {r}->{q} op {o:x} visit {visit}") });
                                break 'role;
                            }
                        }
                    } else if q == r {
                        let call = match c.peek() {
                            None => { c.stopped = Some(u64::MAX); break 'role; }
                            Some(e) if e.k == K::Fault || e.k == K::Exit => { c.stopped = Some(e.seq); break 'role; }
                            Some(e) if e.k == K::CallRecv && e.op == o => { c.i += 1; e }
                            Some(e) => { v.push(Viol { class: "order", msg: format!("role {r} performed {:?} of op {:x} where the protocol prescribes a receive, op {:x}", e.k, e.op, o) }); break 'walk; }
                        };
                        match c.peek() {
                            Some(e) if e.k == K::RetRecv && e.op == o => {
                                c.i += 1;
                                recvs.push(RecvRec { visit, msg: mi, role: r, ok: e.ok, fp: e.arg, ret: e.seq });
                                if !e.ok { c.stopped = Some(call.seq); break 'role; }
                            }
                            other => {
                                let ret = other.map(|e| e.seq).unwrap_or(u64::MAX);
                                recvs.push(RecvRec { visit, msg: mi, role: r, ok: false, fp: 0, ret });
                                c.stopped = Some(call.seq);
                                break 'role;
                            }
                        }
                    }
                    mi += 1;
                }
                let o = op(node, TERM_IX as usize);
                match nd.term {
                    Term::End => {
                        let o = if p.central && r == 0 { CENTRAL_OP } else { o };
                        let call = stop_or_next!(K::CallClose, o);
                        match c.peek() {
                            Some(e) if e.k == K::RetClose => {
                                c.i += 1;
                                closes.push((r, call.seq, Some((e.seq, e.ok))));
                                if e.ok { c.done = true; } else { c.stopped = Some(call.seq); }
                            }
                            _ => { closes.push((r, call.seq, None)); c.stopped = Some(call.seq); }
                        }
                    }
                    Term::Choice(ch, targets, _) => {
                        if p.central && r == 0 { break 'role; }
                        if ch == r {
                            let call = stop_or_next!(K::CallChoose, o);
                            match c.peek() {
                                Some(e) if e.k == K::RetChoose => {
                                    c.i += 1;
                                    choice = Some((call.arg, call.seq, Some((e.seq, e.ok))));
                                    if !e.ok { c.stopped = Some(call.seq); }
                                }
                                _ => { choice = Some((call.arg, call.seq, None)); c.stopped = Some(call.seq); }
                            }
                        } else {
                            let call = stop_or_next!(K::CallOffer, o);
                            match c.peek() {
                                Some(e) if e.k == K::Branch && e.op == o => {
                                    c.i += 1;
                                    match choice {
                                        None => { v.push(Viol { class: "branch", msg: format!("role {r} took branch {} of node {node} (visit {visit}) which role {ch} never selected", e.arg) }); break 'walk; }
                                        Some((k, cs, _)) => {
                                            if k != e.arg {
                                                v.push(Viol { class: "branch", msg: format!("role {r} took branch {} of node {node} (visit {visit}) but role {ch} selected branch {k}", e.arg) });
                                                break 'walk;
                                            }
                                            if e.seq < cs {
                                                v.push(Viol { class: "branch", msg: format!("role {r} took branch {k} of node {node} before role {ch} selected it") });
                                            }
                                        }
                                    }
                                    let _ = targets;
                                }
                                other => {
                                    let okk = matches!(other, Some(e) if e.k == K::OfferErr && e.ok);
                                    if matches!(other, Some(e) if e.k == K::OfferErr) { c.i += 1; }
                                    if okk {
                                        v.push(Viol { class: "branch", msg: format!("role {r}: offer at node {node} (visit {visit}) returned success without running any handler") });
                                    }
                                    if let Some((k, _, Some((_, true)))) = choice {
                                        if !self_fail[r] && !(p.central && any_fault) {
                                            v.push(Viol { class: "lost", msg: format!("role {r} failed to receive branch {k} of node {node} (visit {visit}) although role {ch} completed the selection") });
                                        }
                                    } else if !any_fault {
                                        v.push(Viol { class: "nofault-err", msg: format!("role {r} failed at the offer of node {node} although nobody failed") });
                                    } else { facts.failed_recv_justified += 1; }
                                    c.stopped = Some(call.seq);
                                }
                            }
                        }
                    }
                }
                break 'role;
            }
        }
        match nd.term {
            Term::End => { reached_end = true; break 'walk; }
            Term::Choice(ch, targets, _) => match choice {
                None => {
                    for r in 0..n {
                        if r != ch && cur[r].stopped.is_none() && !(p.central && r == 0) {
                            v.push(Viol { class: "order", msg: format!("role {r} neither stopped nor could have passed node {node}") });
                        }
                    }
                    break 'walk;
                }
                Some((k, _, ret)) => {
                    facts.choices += 1;
                    facts.path.push(k as u8);
                    // links of a dead participant stay buffered until every selection so far has returned
                    last_choose_ret = last_choose_ret.max(match ret { Some((s, true)) => s, _ => u64::MAX });
                    if !matches!(ret, Some((_, true))) { failed_choice = failed_choice.min(visit as u64); }
                    node = targets[k as usize];
                    visit += 1;
                    if cur.iter().all(|c| c.stopped.is_some()) { break 'walk; }
                }
            },
        }
    }
    if !v.is_empty() { return v; }

    let begin: Vec<Option<u64>> = (0..n).map(|r| {
        // a role that stopped: first of fault / call of the failing operation / exit
        cur[r].stopped
    }).collect();

    let first_fault = logs.iter().flatten().filter(|e| e.k == K::Fault).map(|e| e.seq).min().unwrap_or(u64::MAX);
    if p.central && any_fault && !(reached_end && closes.len() == n) && logs[0].iter().any(|e| e.k == K::RetClose && e.ok) {
        v.push(Viol { class: "close", msg: "the central role reported success although some participant never closed".into() });
    }
    // ---- messages
    for rr in &recvs {
        // find node by replay: message index is relative to the node of that visit
        let s = sends.get(&(rr.visit, rr.msg));
        if rr.ok {
            match s {
                None => v.push(Viol { class: "payload", msg: format!("role {} received a value for message {} of visit {} that was never sent", rr.role, rr.msg, rr.visit) }),
                Some(s) => {
                    if s.fp != rr.fp {
                        v.push(Viol { class: "payload", msg: format!("role {} received fingerprint {:x} for message {} of visit {}, but {:x} was sent", rr.role, rr.fp, rr.msg, rr.visit, s.fp) });
                    } else if s.call >= rr.ret {
                        v.push(Viol { class: "payload", msg: format!("role {} received message {} of visit {} before it was sent", rr.role, rr.msg, rr.visit) });
                    } else { facts.msgs_matched += 1; }
                    if let Some((_, false)) = s.ret {
                        v.push(Viol { class: "send-fail", msg: format!("message {} of visit {} was received by role {} although its send reported failure", rr.msg, rr.visit, rr.role) });
                    }
                }
            }
        } else {
            if self_fail[rr.role] { continue; }
            if let Some(SendRec { ret: Some((_, true)), .. }) = s {
                v.push(Viol { class: "lost", msg: format!("role {} failed to receive message {} of visit {} although its send completed", rr.role, rr.msg, rr.visit) });
            } else if !any_fault {
                v.push(Viol { class: "nofault-err", msg: format!("role {} failed to receive message {} of visit {} although nobody failed", rr.role, rr.msg, rr.visit) });
            } else { facts.failed_recv_justified += 1; }
        }
    }
    for f in &fail_sends {
        if self_fail[f.r] { continue; }
        let ok = any_fault && (matches!(begin[f.q], Some(b) if b < f.ret) || (p.central && first_fault < f.ret) || f.visit > failed_choice);
        if !ok {
            v.push(Viol { class: "send-fail", msg: format!("{} failed although its receiver was still following the protocol", f.what) });
        } else { facts.failed_send_justified += 1; }
    }
    // ---- close
    if p.strict_close {
        let all_called = reached_end && closes.len() == n;
        for (r, _, ret) in &closes {
            match ret {
                Some((rs, true)) => {
                    facts.closes_ok += 1;
                    for q in 0..n {
                        match closes.iter().find(|c| c.0 == q) {
                            None => v.push(Viol { class: "close", msg: format!("close of role {r} succeeded although role {q} never called close") }),
                            Some(c) if c.1 > *rs => v.push(Viol { class: "close", msg: format!("close of role {r} returned success at {rs} before role {q} called close at {}", c.1) }),
                            _ => {}
                        }
                    }
                }
                _ => {
                    if all_called && !self_fail[*r] {
                        v.push(Viol { class: "close", msg: format!("close of role {r} failed although every role called close") });
                    }
                }
            }
        }
    }
    for r in 0..n {
        if cur[r].done { facts.completed_roles += 1; }
        if !cur[r].faulted && !cur[r].done { facts.survivors_failed += 1; }
        if !any_fault && !cur[r].done && p.strict_close {
            v.push(Viol { class: "nofault-err", msg: format!("role {r} did not complete although nobody failed") });
        }
    }
    v
}
